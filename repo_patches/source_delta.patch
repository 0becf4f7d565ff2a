From fbff2547d470c1159c189cf8a4edba8a0bb26bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:57 +0000
Subject: [PATCH 01/73] fix: U.dagger must swap phi and omega (inverse of
 RZ(omega) RY(theta) RZ(phi))

---
 qadence/operations/parametric.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..a1ffdc9 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -194,6 +195,10 @@ class U(ParametricBlock):
     def n_qubits(self) -> int:
         return 1
 
+    def dagger(self) -> U:
+        phi, theta, omega = (-extract_original_param_entry(p) for p in self.parameters.expressions())
+        return U(self.qubit_support[0], omega, theta, phi, self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From d7a61979b6e551b21821a1287ba6f2c6b7ddc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:57 +0000
Subject: [PATCH 02/73] fix: Projector.dagger must exchange bra and ket

---
 qadence/operations/primitive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..acd4136 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -142,6 +142,11 @@ class Projector(ProjectorBlock):
     ) -> None:
         super().__init__(ket=ket, bra=bra, qubit_support=qubit_support, noise=noise)
 
+    def dagger(self) -> PrimitiveBlock:
+        if self.ket == self.bra:
+            return self
+        return Projector(self.bra, self.ket, self.qubit_support, noise=self.noise)
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From 9c5b526e6480de14b9b657a07eeb9b7e0e4825c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:57 +0000
Subject: [PATCH 03/73] fix: MatrixBlock.dagger must return the conjugate
 transpose

---
 qadence/blocks/matrix.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..5e87867 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -90,6 +90,14 @@ class MatrixBlock(PrimitiveBlock):
             raise ValueError("Provided matrix does not match the qubit_support length.")
         super().__init__(qubit_support, noise)
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.t().conj().resolve_conj(),
+            self.qubit_support,
+            self.noise,
+            check_unitary=False,
+        )
+
     @cached_property
     def eigenvalues_generator(self) -> torch.Tensor:
         return torch.log(self.eigenvalues) * 1j
-- 
2.43.0


From 76619cb775c72d5a6a7bced43840e4e0c9430ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:58 +0000
Subject: [PATCH 04/73] fix: HamEvo.dagger keeps the qubit support of tensor
 generators

---
 qadence/operations/ham_evo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..923a612 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -202,7 +202,8 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        qubit_support = None if isinstance(self.generator, AbstractBlock) else self.qubit_support
+        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p), qubit_support)
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
-- 
2.43.0


From 7482d6c97add0a7fd1d0b27a69d12efea7e65d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:11 +0000
Subject: [PATCH 05/73] fix: the adjoint of a block scaled by a parameter
 expression can be evaluated

---
 qadence/parameters.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..f36630f 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -8,8 +8,7 @@ import jsonschema
 import numpy as np
 import sympy
 from sympy import *
-from sympy import Array, Basic, Expr, Symbol, sympify
-from sympy.physics.quantum.dagger import Dagger
+from sympy import Array, Basic, Dummy, Expr, Symbol, sympify
 from sympytorch import SymPyModule as torchSympyModule
 from torch import Tensor, heaviside, no_grad, rand, tensor
 
@@ -20,7 +19,13 @@ __all__ = ["FeatureParameter", "Parameter", "VariationalParameter", "ParamMap",
 
 logger = getLogger(__name__)
 
-dagger_expression = Dagger
+
+def dagger_expression(expr: Basic) -> Basic:
+    """Complex conjugate of an expression, whose parameters take real values."""
+    reals = {s: Dummy(s.name, real=True) for s in expr.free_symbols}
+    conjugated = expr.xreplace(reals).conjugate()
+    return conjugated.xreplace({real: s for s, real in reals.items()})
+
 
 ParameterJSONSchema = {
     "$schema": "http://json-schema.org/draft-07/schema#",
-- 
2.43.0


From 8180e17678c9929ae0d9623d73eada6a31dcdd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:19 +0000
Subject: [PATCH 06/73] fix: iterating over a CompositeBlock no longer shares
 iteration state between iterators

---
 qadence/blocks/composite.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..257de81 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Tuple
+from typing import Iterator, Tuple
 
 import torch
 from rich.columns import Columns
@@ -55,12 +55,8 @@ class CompositeBlock(AbstractBlock):
     def depth(self) -> int:
         return 1 + max([b.depth for b in self.blocks])
 
-    def __iter__(self) -> CompositeBlock:
-        self._iterator = iter(self.blocks)
-        return self
-
-    def __next__(self) -> AbstractBlock:
-        return next(self._iterator)
+    def __iter__(self) -> Iterator[AbstractBlock]:
+        return iter(self.blocks)
 
     def __getitem__(self, item: int) -> AbstractBlock:
         return self.blocks[item]
-- 
2.43.0


From 611543771cf53e8a2eedca90a6ffb01619e8c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:36 +0000
Subject: [PATCH 07/73] fix: scale_primitive_blocks_only keeps the scale of an
 empty chain

---
 qadence/transpile/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 26fce48..52571dd 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -279,7 +279,7 @@ def scale_only_first_block(
         blk = fn(firstscaled, *[scale_primitive_blocks_only(b, None) for b in rest])
         return blk
     else:
-        return block
+        return block if scale is None else block * scale  # type: ignore[return-value]
 
 
 @singledispatch
-- 
2.43.0


From 62feb8afd16029de673c320f39efa3067328d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:41 +0000
Subject: [PATCH 08/73] fix: relabelling qubits also relabels generators of
 time evolutions and control/target attributes

---
 qadence/transpile/invert.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..b4e39a1 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -19,7 +19,13 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
         block (AbstractBlock): _description_
         qubit_map (dict[int, int]): _description_
     """
-    from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
+    from qadence.blocks import (
+        CompositeBlock,
+        ControlBlock,
+        ParametricControlBlock,
+        ScaleBlock,
+        TimeEvolutionBlock,
+    )
     from qadence.blocks.utils import _construct
 
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
@@ -29,6 +35,9 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             new_control_block._qubit_support = tuple(qubit_map[i] for i in old_qs)
             (subblock,) = block.blocks
             new_control_block.blocks = (reassign(subblock, qubit_map),)  # type: ignore [assignment]
+            new_control_block.control = tuple(qubit_map[i] for i in block.control)
+            if isinstance(new_control_block, ControlBlock):
+                new_control_block.target = new_control_block.blocks[0].qubit_support
             return new_control_block
         elif isinstance(block, CompositeBlock):
             subblocks = tuple(_block_with_updated_support(b) for b in block.blocks)
@@ -43,6 +52,12 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
             blk._qubit_support = qs  # type: ignore[attr-defined]
+            if isinstance(block, TimeEvolutionBlock):
+                if isinstance(block.generator, AbstractBlock):
+                    blk.generator = reassign(block.generator, qubit_map)  # type: ignore[attr-defined]
+                blk.noise_operators = [  # type: ignore[attr-defined]
+                    reassign(op, qubit_map) for op in block.noise_operators
+                ]
             return blk
 
     return _block_with_updated_support(block)
-- 
2.43.0


From 09f1a450d272201e82a14fc24e570a2044932afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:35 +0000
Subject: [PATCH 09/73] fix: copying a Parameter keeps its value, trainability
 and time flag (and does not corrupt the original)

---
 qadence/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index f36630f..5ac7ad9 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -157,6 +157,10 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __getstate__(self) -> dict:
+        # sympy recreates symbols from their (boolean) assumptions when copying or pickling
+        return {"trainable": self.trainable, "value": self.value, "is_time": self.is_time}
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
-- 
2.43.0


From 2051df9068fcd871cd695ee3633baea8aef3e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 10/73] fix: n_qubits of every gate is one more than its
 largest qubit index

---
 qadence/blocks/matrix.py          |  4 ----
 qadence/blocks/primitive.py       |  4 ----
 qadence/operations/control_ops.py | 24 ++++++++++--------------
 qadence/operations/ham_evo.py     | 10 ----------
 qadence/operations/parametric.py  |  4 ----
 qadence/operations/primitive.py   |  8 --------
 6 files changed, 10 insertions(+), 44 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 5e87867..24643df 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -108,10 +108,6 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
-    @property
-    def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
-
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..3746c8f 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -456,10 +456,6 @@ class ParametricControlBlock(ParametricBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         raise NotImplementedError
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..f4cc941 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -72,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_qubits - 1)))
+        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -119,13 +119,13 @@ class MCRX(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRX(MCRX):
@@ -162,13 +162,13 @@ class MCRY(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRY(MCRY):
@@ -201,13 +201,13 @@ class MCRZ(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRZ(MCRZ):
@@ -245,13 +245,13 @@ class MCPHASE(ParametricControlBlock):
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat(
-            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_qubits - 2)))
+            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_supports - 2)))
         )
 
     @property
     def eigenvalues(self) -> Tensor:
         v = evaluate(self.parameters.parameter, as_torch=True)
-        return torch.cat((torch.ones(2**self.n_qubits - 1), torch.exp(1j * v)))
+        return torch.cat((torch.ones(2**self.n_supports - 1), torch.exp(1j * v)))
 
     def __rich_tree__(self, tree: Tree = None) -> Tree:
         if tree is None:
@@ -334,10 +334,6 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 923a612..d5f0a3b 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -191,15 +190,6 @@ class HamEvo(TimeEvolutionBlock):
             -1j * evaluate(self.parameters.parameter, as_torch=True) * self.eigenvalues_generator
         )
 
-    @property
-    def n_qubits(self) -> int:
-        if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
-        else:
-            n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
-
-        return n_qubits
-
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
         qubit_support = None if isinstance(self.generator, AbstractBlock) else self.qubit_support
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index a1ffdc9..8ec8a94 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -191,10 +191,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> U:
         phi, theta, omega = (-extract_original_param_entry(p) for p in self.parameters.expressions())
         return U(self.qubit_support[0], omega, theta, phi, self.noise)
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index acd4136..b014afe 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -315,10 +315,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0])
 
@@ -345,10 +341,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0])
 
-- 
2.43.0


From 0b1e59579dc7af76c04388e50f6401d0a02b1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:53 +0000
Subject: [PATCH 11/73] fix: negative powers of a block are rejected instead of
 returning the identity

---
 qadence/blocks/abstract.py  | 2 ++
 qadence/blocks/primitive.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qadence/blocks/abstract.py b/qadence/blocks/abstract.py
index 85c2e99..465307f 100644
--- a/qadence/blocks/abstract.py
+++ b/qadence/blocks/abstract.py
@@ -184,6 +184,8 @@ class AbstractBlock(ABC):
     def __pow__(self, power: int) -> AbstractBlock:
         from qadence.blocks.utils import chain
 
+        if power < 0:
+            raise ValueError(f"Negative powers of a block are not supported. Got {power}.")
         return chain(self for _ in range(power))
 
     def __neg__(self) -> AbstractBlock:
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 3746c8f..5b076d0 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -247,6 +247,8 @@ class ScaleBlock(ParametricBlock):
     def __pow__(self, power: int) -> AbstractBlock:
         from qadence.blocks.utils import chain
 
+        if power < 0:
+            raise ValueError(f"Negative powers of a block are not supported. Got {power}.")
         expr = self.parameters.parameter
         return ScaleBlock(chain(self.block for _ in range(power)), expr**power)
 
-- 
2.43.0


From dbb5b779ea76e7b108fa9db802a248b4b9721965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:30 +0000
Subject: [PATCH 12/73] fix: the union of qubit supports does not depend on the
 order of its operands

---
 qadence/qubit_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/qubit_support.py b/qadence/qubit_support.py
index b7a0f0f..5d7f549 100644
--- a/qadence/qubit_support.py
+++ b/qadence/qubit_support.py
@@ -42,7 +42,7 @@ class QubitSupport(tuple):
         elif other == ("global",):
             return QubitSupport(*range(max(self) + 1)) if len(self) else QubitSupport("global")
         else:
-            return QubitSupport(tuple({*self, *other}))
+            return QubitSupport(tuple(sorted({*self, *other})))
 
     def __radd__(self, other: Any) -> QubitSupport:
         return self.__add__(other)
-- 
2.43.0


From 6d1c93f3b0f8e693237b5860ded3a7111be8bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 13/73] fix: serialize every leaf block's own constructor
 arguments (parametric, control, projector, N, Zero)

---
 qadence/blocks/primitive.py       | 58 ++++++++++++++++++++++++-------
 qadence/operations/control_ops.py | 11 ++++++
 qadence/operations/primitive.py   |  8 +++++
 3 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 5b076d0..1fa8449 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -187,8 +187,11 @@ class ParametricBlock(PrimitiveBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
+            ps, qs = self.parameters.expressions(), other.parameters.expressions()
+            return (
+                self.qubit_support == other.qubit_support
+                and len(ps) == len(qs)
+                and all(p.equals(q) if hasattr(p, "equals") else p == q for p, q in zip(ps, qs))
             )
         return False
 
@@ -213,7 +216,10 @@ class ParametricBlock(PrimitiveBlock):
     def _from_dict(cls, d: dict) -> ParametricBlock:
         params = ParamMap._from_dict(d["parameters"])
         target = d["qubit_support"][0]
-        return cls(target, params, NoiseHandler._from_dict(d.get("noise")))  # type: ignore[call-arg, arg-type]
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        block = cls(target, *params.expressions(), noise)  # type: ignore[call-arg, arg-type]
+        block.parameters = params
+        return block
 
     def dagger(self) -> ParametricBlock:
         exprs = self.parameters.expressions()
@@ -368,6 +374,8 @@ class ControlBlock(PrimitiveBlock):
     """The abstract ControlBlock."""
 
     name = "Control"
+    multi_control: bool = False
+    """Whether the constructor takes a tuple of controls instead of a single one."""
     control: tuple[int, ...]
     target: tuple[int, ...]
 
@@ -419,9 +427,10 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        target = d["blocks"][0]["qubit_support"]
+        control = tuple(d["qubit_support"][: -len(target)])
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(control if cls.multi_control else control[0], *target, noise)  # type: ignore[arg-type]
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -433,6 +442,8 @@ class ParametricControlBlock(ParametricBlock):
     """The abstract parametrized ControlBlock."""
 
     name = "ParameterizedControl"
+    multi_control: bool = False
+    """Whether the constructor takes a tuple of controls instead of a single one."""
     control: tuple[int, ...] = ()
     blocks: tuple[ParametricBlock, ...]
 
@@ -476,13 +487,16 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
+        target = d["blocks"][0]["qubit_support"]
+        control = tuple(d["qubit_support"][: -len(target)])
+        params = ParamMap._from_dict(d["blocks"][0]["parameters"])
+        block = cls(  # type: ignore[call-arg]
+            control if cls.multi_control else control[0],  # type: ignore[arg-type]
+            *target,
+            *params.expressions(),
+            NoiseHandler._from_dict(d.get("noise")),
+        )
+        block.parameters = block.blocks[0].parameters = params
         return block
 
     @property
@@ -546,3 +560,21 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            super().__eq__(other)
+            and self.ket == other.ket  # type: ignore[attr-defined]
+            and self.bra == other.bra  # type: ignore[attr-defined]
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["ket"], d["bra"], tuple(d["qubit_support"]), noise=noise)
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index f4cc941..1738b06 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -63,6 +63,7 @@ class CNOT(ControlBlock):
 
 class MCZ(ControlBlock):
     name = OpName.MCZ
+    multi_control = True
 
     def __init__(
         self, control: tuple[int, ...], target: int, noise: NoiseHandler | None = None
@@ -95,6 +96,7 @@ class CZ(MCZ):
     """The CZ gate."""
 
     name = OpName.CZ
+    multi_control = False
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
@@ -102,6 +104,7 @@ class CZ(MCZ):
 
 class MCRX(ParametricControlBlock):
     name = OpName.MCRX
+    multi_control = True
 
     def __init__(
         self,
@@ -132,6 +135,7 @@ class CRX(MCRX):
     """The CRX gate."""
 
     name = OpName.CRX
+    multi_control = False
 
     def __init__(
         self,
@@ -145,6 +149,7 @@ class CRX(MCRX):
 
 class MCRY(ParametricControlBlock):
     name = OpName.MCRY
+    multi_control = True
 
     def __init__(
         self,
@@ -175,6 +180,7 @@ class CRY(MCRY):
     """The CRY gate."""
 
     name = OpName.CRY
+    multi_control = False
 
     def __init__(
         self, control: int, target: int, parameter: TParameter, noise: NoiseHandler | None = None
@@ -184,6 +190,7 @@ class CRY(MCRY):
 
 class MCRZ(ParametricControlBlock):
     name = OpName.MCRZ
+    multi_control = True
 
     def __init__(
         self,
@@ -214,6 +221,7 @@ class CRZ(MCRZ):
     """The CRZ gate."""
 
     name = OpName.CRZ
+    multi_control = False
 
     def __init__(
         self,
@@ -227,6 +235,7 @@ class CRZ(MCRZ):
 
 class MCPHASE(ParametricControlBlock):
     name = OpName.MCPHASE
+    multi_control = True
 
     def __init__(
         self,
@@ -270,6 +279,7 @@ class CPHASE(MCPHASE):
     """The CPHASE gate."""
 
     name = OpName.CPHASE
+    multi_control = False
 
     def __init__(
         self,
@@ -327,6 +337,7 @@ class CSWAP(ControlBlock):
 
 class Toffoli(ControlBlock):
     name = OpName.TOFFOLI
+    multi_control = True
 
     def __init__(
         self, control: tuple[int, ...], target: int, noise: NoiseHandler | None = None
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index b014afe..d981df0 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -169,6 +169,10 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        return cls(d["qubit_support"][0], d["ket"], NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
@@ -269,6 +273,10 @@ class Zero(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.zeros(2, dtype=cdouble)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> Zero:
+        return cls()
+
     def __add__(self, other: AbstractBlock) -> AbstractBlock:
         return other
 
-- 
2.43.0


From 03585f3870fbf9e5025d83044b00cac6a8b9f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 14/73] fix: HamEvo, MatrixBlock and PutBlock survive
 serialization and compare their generators

---
 qadence/blocks/composite.py   |  7 +++++
 qadence/blocks/matrix.py      | 22 ++++++++++++++
 qadence/operations/ham_evo.py | 57 +++++++++++++++++++++++++++++++++++
 3 files changed, 86 insertions(+)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 257de81..16bbb8a 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -172,6 +172,13 @@ class PutBlock(CompositeBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         return self.blocks[0].__ascii__(console)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> PutBlock:
+        inner = ChainBlock._from_dict({**d, "tag": None})
+        block = cls(inner.blocks[0], tuple(d["qubit_support"]))
+        block.tag = d["tag"]
+        return block
+
     def dagger(self) -> PutBlock:
         return PutBlock(self.blocks[0].dagger(), self.qubit_support)
 
diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 24643df..8cc63fb 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -90,6 +90,28 @@ class MatrixBlock(PrimitiveBlock):
             raise ValueError("Provided matrix does not match the qubit_support length.")
         super().__init__(qubit_support, noise)
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and torch.equal(self.matrix, other.matrix)  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
+    def _to_dict(self) -> dict:
+        matrix = self.matrix.detach().to(torch.cdouble)
+        return {
+            **super()._to_dict(),
+            "matrix": {"real": matrix.real.tolist(), "imag": matrix.imag.tolist()},
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        matrix = torch.complex(
+            torch.tensor(d["matrix"]["real"], dtype=torch.double),
+            torch.tensor(d["matrix"]["imag"], dtype=torch.double),
+        )
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(matrix, tuple(d["qubit_support"]), noise, check_unitary=False)
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj().resolve_conj(),
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index d5f0a3b..480d8e9 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -190,6 +190,63 @@ class HamEvo(TimeEvolutionBlock):
             -1j * evaluate(self.parameters.parameter, as_torch=True) * self.eigenvalues_generator
         )
 
+    def __eq__(self, other: object) -> bool:
+        if not super().__eq__(other):
+            return False
+        g, h = self.generator, other.generator  # type: ignore[attr-defined]
+        same = (
+            torch.equal(g, h)
+            if isinstance(g, Tensor) and isinstance(h, Tensor)
+            else type(g) is type(h) and g == h
+        )
+        return same and self.noise_operators == other.noise_operators  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
+    def _to_dict(self) -> dict:
+        from qadence.serialization import serialize
+
+        generator = self.generator
+        if isinstance(generator, Tensor):
+            matrix = generator.detach().to(torch.cdouble)
+            generator_dict = {"real": matrix.real.tolist(), "imag": matrix.imag.tolist()}
+        else:
+            generator_dict = serialize(generator)
+        duration = None if self.duration is None else serialize(self.parameters.duration)
+        return {
+            "type": type(self).__name__,
+            "qubit_support": self.qubit_support,
+            "tag": self.tag,
+            "parameter": serialize(self.parameters.parameter),
+            "duration": duration,
+            "generator": generator_dict,
+            "noise_operators": [op._to_dict() for op in self.noise_operators],
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        from qadence.serialization import deserialize
+
+        def entry(expr: dict) -> Any:
+            return extract_original_param_entry(deserialize(expr))
+
+        g = d["generator"]
+        if "real" in g:
+            generator = torch.complex(
+                torch.tensor(g["real"], dtype=torch.double),
+                torch.tensor(g["imag"], dtype=torch.double),
+            )
+        else:
+            generator = deserialize(g)
+        return cls(
+            generator,
+            entry(d["parameter"]),
+            None if isinstance(generator, AbstractBlock) else tuple(d["qubit_support"]),
+            None if d["duration"] is None else entry(d["duration"]),
+            [deserialize(op) for op in d["noise_operators"]],
+        )
+
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
         qubit_support = None if isinstance(self.generator, AbstractBlock) else self.qubit_support
-- 
2.43.0


From e51b30d8c15de7a550eeb7b9d0b0d13285af1e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 15/73] fix: deserialize expressions without builtins, with
 exponent floats, constants and is_time

---
 qadence/parameters.py           |  6 +++++-
 qadence/serial_expr_grammar.peg |  9 +++++----
 qadence/serialization.py        | 27 +++++++++++++++++++--------
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 5ac7ad9..22ff44c 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -34,6 +34,7 @@ ParameterJSONSchema = {
         "name": {"type": "string"},
         "trainable": {"type": "string"},
         "value": {"type": "string"},
+        "is_time": {"type": "string"},
     },
     "oneOf": [
         {
@@ -163,6 +164,8 @@ class Parameter(Symbol):
 
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
+        if self.is_time:
+            d["is_time"] = "True"
         try:
             jsonschema.validate(d, ParameterJSONSchema)
             return d
@@ -175,7 +178,8 @@ class Parameter(Symbol):
         try:
             jsonschema.validate(d, ParameterJSONSchema)
             trainable = True if d["trainable"] == "True" else False
-            return cls(name=d["name"], trainable=trainable, value=float(d["value"]))
+            is_time = {"is_time": True} if d.get("is_time") == "True" else {}
+            return cls(name=d["name"], trainable=trainable, value=float(d["value"]), **is_time)
         except jsonschema.exceptions.ValidationError as e:
             logger.exception(f"Parameter dict {d} doesnt comply to {ParameterJSONSchema} with {e}.")
             return None
diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..4debf94 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,11 +1,12 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
 args = (value / expr) (',' (value / expr))*
-value = int / float_str / str / pair
+value = int / float_str / str / pair / const
 pair = param '=' (int / bool / str)
-param = r"[a-z][a-zA-Z]*"
+param = r"[a-z][a-zA-Z_]*"
+const = r"(pi|I|E)\b"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
+float_str = r"'-?(0|\d*(\.\d*))([eE][+-]?\d+)?'"
 str = r"'[a-zA-Z0-9\_\.]+'"
diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..75ddc59 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -11,6 +11,7 @@ from pathlib import Path
 from typing import Any, Callable, get_args
 from typing import Union as TypingUnion
 
+import sympy
 import torch
 from arpeggio import NoMatch
 from arpeggio.cleanpeg import ParserPEG
@@ -68,6 +69,8 @@ SYMPY_EXPRS = [n for n in dir(core) if not (n.startswith("__") and n.endswith("_
 QADENCE_PARAMETERS = [n for n in dir(parameters) if not (n.startswith("__") and n.endswith("__"))]
 
 
+EXPRESSION_NAMES = {**{n: getattr(sympy, n) for n in sympy.__all__}, "Parameter": Parameter}
+
 THIS_PATH = Path(__file__).parent
 GRAMMAR_FILE = THIS_PATH / "serial_expr_grammar.peg"
 
@@ -206,14 +209,22 @@ class ExpressionSerialization(SerializationModel):
     value: str | core.Expr | float = dataclass_field(init=False)
 
     def __post_init__(self) -> None:
-        if parse_expr_fn(self.d["expression"]):
-            expr = eval(self.d["expression"])
-            if hasattr(expr, "free_symbols"):
-                for s in expr.free_symbols:
-                    s.value = float(self.d["symbols"][s.name]["value"])
-            self.value = expr
-        else:
-            raise ValueError(f"Invalid expression: {self.d['expression']}")
+        code = self.d["expression"]
+        expr = None
+        if parse_expr_fn(code):
+            try:
+                # only names of sympy and `Parameter` may be used, in particular no builtins
+                expr = eval(code, {"__builtins__": {}}, EXPRESSION_NAMES)
+            except NameError:
+                pass
+        if not isinstance(expr, core.Basic):
+            raise ValueError(f"Invalid expression: {code}")
+        for s in expr.free_symbols:
+            symbol = self.d["symbols"][s.name]
+            s.value = float(symbol["value"])
+            s.trainable = symbol["trainable"] == "True"
+            s.is_time = symbol.get("is_time") == "True"
+        self.value = expr
 
 
 def save_pt(d: dict, file_path: str | Path) -> None:
-- 
2.43.0


From 909ce1ee487928655e1ba51f25c788ea9602d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 16/73] fix: a register without spacing deserializes without
 rescaling

---
 qadence/register.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..cfc78c0 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,  # the stored coordinates are final
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From 3b7aebf4be7bcd9627409e7e0a09c86a9c7fd3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 17/73] fix: RydbergDevice._from_dict leaves its argument
 unchanged

---
 qadence/analog/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
-- 
2.43.0


From b94814eea1665132b7e3ed381a887010a0e0a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:26 +0000
Subject: [PATCH 18/73] fix: NoiseHandler equality compares all protocols and
 JSON restores enums

---
 qadence/noise/protocols.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..4691d8b 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,9 +126,7 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
-            options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
-            return protocols_equal and options_equal
+            return self.protocol == other.protocol and self.options == other.options
 
         return False
 
@@ -141,9 +139,22 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            return cls(
+                [cls._protocol_enum(p, o) for p, o in zip(d["protocol"], d["options"])],
+                d["options"],
+            )
         return None
 
+    @staticmethod
+    def _protocol_enum(protocol: NoiseEnum | str, option: dict) -> NoiseEnum:
+        # enums become plain strings in JSON data
+        if type(protocol) is not str:
+            return protocol
+        if "noise_probs" in option:
+            return NoiseProtocol.ANALOG(protocol)
+        is_readout = protocol in [p.value for p in NoiseProtocol.READOUT]
+        return NoiseProtocol.READOUT(protocol) if is_readout else NoiseProtocol.DIGITAL(protocol)
+
     @classmethod
     def list(cls) -> list:
         return list(filter(lambda el: not el.startswith("__"), dir(cls)))
-- 
2.43.0


From 333f275dd5b7dc2a843d2a64ec37a65ce82f9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 19/73] fix: distinct constants and constant matrices get
 distinct parameter names

---
 qadence/parameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 22ff44c..e2fc542 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -1,11 +1,11 @@
 from __future__ import annotations
 
+from hashlib import sha256
 from logging import getLogger
 from typing import Any, ItemsView, KeysView, ValuesView, get_args
 from uuid import uuid4
 
 import jsonschema
-import numpy as np
 import sympy
 from sympy import *
 from sympy import Array, Basic, Dummy, Expr, Symbol, sympify
@@ -299,11 +299,12 @@ def evaluate(expr: Expr, values: dict | None = None, as_torch: bool = False) ->
 def stringify(expr: Basic) -> str:
     name: str = ""
     if isinstance(expr, Array):
-        return str(np.array(expr.tolist())).replace(".", "_")
+        # the printed form of large arrays is abbreviated, so it does not identify them
+        return "mat_" + sha256(str(expr.tolist()).encode()).hexdigest()
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            # the hash of a number is not unique, e.g. hash(-1) == hash(-2)
+            name = "fix_" + repr(sympy_to_numeric(expr)).replace(".", "_")
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From bbc4cbe929a1c05188af2c8a963a26a897e26cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 20/73] fix: trainable parameters with an integer initial value
 can be embedded

---
 qadence/blocks/embedding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/blocks/embedding.py b/qadence/blocks/embedding.py
index 4fa6fab..396a66d 100644
--- a/qadence/blocks/embedding.py
+++ b/qadence/blocks/embedding.py
@@ -37,6 +37,8 @@ def _concretize_parameter(engine: Engine) -> Callable:
     else:
 
         def concretize_parameter(value: TNumber, trainable: bool = False) -> ArrayLike:
+            if trainable and isinstance(value, int):
+                value = float(value)  # integer tensors cannot require gradients
             return tensor([value], requires_grad=trainable)
 
     return concretize_parameter
-- 
2.43.0


From ef448c3454720baa37c40d4b617c7fb105e2f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 21/73] fix: names of constants remain plain symbol names

---
 qadence/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index e2fc542..c9a8f90 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -304,7 +304,9 @@ def stringify(expr: Basic) -> str:
     else:
         if expr.is_number:
             # the hash of a number is not unique, e.g. hash(-1) == hash(-2)
-            name = "fix_" + repr(sympy_to_numeric(expr)).replace(".", "_")
+            # the name has to remain a plain symbol name for backends parsing expressions
+            encoding = {"-": "m", "+": "p", ".": "_", "(": None, ")": None}
+            name = "fix_" + repr(sympy_to_numeric(expr)).translate(str.maketrans(encoding))
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From 43c20a22614e2b971b5fe67b7944fcd897f6860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 22/73] fix: block_to_tensor orders tensor factors by qubit,
 T_dagger and diagonal/batched forms

---
 qadence/blocks/block_to_tensor.py | 66 ++++++++++++++++---------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..2922bd7 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
@@ -50,7 +50,7 @@ OPERATIONS_DICT = {
     "S": SMAT,
     "SDagger": SDAGMAT,
     "T": TMAT,
-    "TDagger": TDAGMAT,
+    "T_dagger": TDAGMAT,
     "H": HMAT,
     "N": NMAT,
 }
@@ -80,28 +80,28 @@ def _fill_identities(
         or a tensor (2**n_qubits) if diag_only
     """
     full_qubit_support = tuple(sorted(full_qubit_support))
-    qubit_support = tuple(sorted(qubit_support))
-    block_mat = block_mat.to(device)
+    nqubits = len(full_qubit_support)
+    # qubits in the order of the tensor factors: those of the block, then the unused ones
+    factors = tuple(qubit_support) + tuple(q for q in full_qubit_support if q not in qubit_support)
+    mat = block_mat.to(device)
     identity_mat = IMAT.to(device)
     if diag_only:
-        block_mat = torch.diag(block_mat.squeeze(0))
+        mat = torch.diag(mat.squeeze(0))
         identity_mat = torch.diag(identity_mat.squeeze(0))
-    mat = identity_mat if qubit_support[0] != full_qubit_support[0] else block_mat
-    for i in full_qubit_support[1:]:
-        if i == qubit_support[0]:
-            other = block_mat
-            if endianness == Endianness.LITTLE:
-                mat = torch.kron(other, mat)
-            else:
-                mat = torch.kron(mat.contiguous(), other.contiguous())
-        elif i not in qubit_support:
-            other = identity_mat
-            if endianness == Endianness.LITTLE:
-                mat = torch.kron(other.contiguous(), mat.contiguous())
-            else:
-                mat = torch.kron(mat.contiguous(), other.contiguous())
-
-    return mat
+    for _ in range(nqubits - len(qubit_support)):
+        mat = torch.kron(mat.contiguous(), identity_mat.contiguous())
+
+    # move every factor to the position of its qubit
+    ordered = full_qubit_support
+    if endianness == Endianness.LITTLE:
+        ordered = full_qubit_support[::-1]
+    axes = [factors.index(q) for q in ordered]
+    if diag_only:
+        return mat.reshape((2,) * nqubits).permute(axes).reshape(2**nqubits)
+    batch_size = mat.size(0)
+    permutation = [0] + [1 + a for a in axes] + [1 + nqubits + a for a in axes]
+    mat = mat.reshape((batch_size,) + (2,) * (2 * nqubits)).permute(permutation)
+    return mat.reshape(batch_size, 2**nqubits, 2**nqubits)
 
 
 def _rot_matrices(theta: torch.Tensor, generator: torch.Tensor) -> torch.Tensor:
@@ -283,16 +283,18 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(b, values, qubit_support, endianness=endianness, device=device)
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(b, values, qubit_support, endianness=endianness, device=device)
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             OPERATIONS_DICT[block.name],
@@ -355,7 +357,9 @@ def block_to_tensor(
         )
 
     elif tensor_type == TensorType.SPARSEDIAGONAL:
-        t = block_to_diagonal(block, values, endianness=endianness)
+        t = block_to_diagonal(
+            block, values, qubit_support, use_full_support, endianness=endianness, device=device
+        )
         indices, values, size = torch.nonzero(t), t[t != 0], len(t)
         indices = torch.stack((indices.flatten(), indices.flatten()))
         return torch.sparse_coo_tensor(indices, values, (size, size))
@@ -415,15 +419,15 @@ def _block_to_tensor_embedded(
                 )
 
                 # calculate evolution matrix
-                (p,) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                p = _gate_parameters(block, values)[0]
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
                 gen_mat = block.generator.to(device)
 
                 # calculate evolution matrix
-                (p, _) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                p = _gate_parameters(block, values)[0]
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
 
                 # add missing identities on unused qubits
@@ -454,7 +458,7 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, ScaleBlock):
         (scale,) = _gate_parameters(block, values)
-        mat = scale * _block_to_tensor_embedded(
+        mat = scale.reshape(-1, 1, 1) * _block_to_tensor_embedded(
             block.block, values, qubit_support, endianness=endianness, device=device
         )
 
@@ -481,7 +485,7 @@ def _block_to_tensor_embedded(
             swap_block, values, qubit_support, endianness=endianness, device=device
         )
 
-    elif block.name in OPERATIONS_DICT.keys():
+    elif block.name in OPERATIONS_DICT.keys() and getattr(block, "ket", "1") == "1":
         block_mat = OPERATIONS_DICT[block.name]
 
         # add missing identities on unused qubits
-- 
2.43.0


From aa70db220a009f6a65549109a27ed81ba5adc628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 23/73] fix: constant matrices are not taken for batched
 parameter values

---
 qadence/backends/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/backends/utils.py b/qadence/backends/utils.py
index 7da7692..d4c975e 100644
--- a/qadence/backends/utils.py
+++ b/qadence/backends/utils.py
@@ -175,6 +175,8 @@ def infer_batchsize(param_values: dict[str, Tensor] = None) -> int:
                     len(tensor_or_dict)
                     for tensor_or_dict in param_values.values()
                     if isinstance(tensor_or_dict, Tensor)
+                    # matrices such as constant generators are not batched
+                    and not (tensor_or_dict.ndim == 2 and tensor_or_dict.size(1) > 1)
                 ]
             )
             if param_values
-- 
2.43.0


From 246182dd599001eb3e551a389fe551fc3e7e67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 24/73] fix: expectation of batched and unbatched observables
 together

---
 qadence/backends/pyqtorch/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..d796c91 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -204,9 +204,12 @@ class Backend(BackendInterface):
             unpyqify_state=False,
         )
         observable = observable if isinstance(observable, list) else [observable]
-        _expectation = torch.hstack(
-            [obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable]
-        )
+        expvals = [
+            obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable
+        ]
+        # observables without batched parameters take the same value for every element of the batch
+        batch_size = max(e.size(0) for e in expvals)
+        _expectation = torch.hstack([e.expand(batch_size, 1) for e in expvals])
         return _expectation
 
     def _looped_expectation(
-- 
2.43.0


From 3fe820b6aa7d7851e2451cd68689deadc92d6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 25/73] fix: number operator on state 0 is simulated as such

---
 qadence/backends/pyqtorch/convert_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..730dc98 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -281,8 +281,10 @@ def convert_block(
     elif isinstance(block, tuple(non_unitary_gateset)):
         if isinstance(block, ProjectorBlock):
             projector = getattr(pyq, block.name)
-            if block.name == OpName.N:
+            if block.name == OpName.N and block.ket == "1":
                 return [projector(target=qubit_support, noise=noise)]
+            elif block.name == OpName.N:
+                return [pyq.Projector(qubit_support, ket=block.ket, bra=block.bra, noise=noise)]
             else:
                 return [
                     projector(
-- 
2.43.0


From 3f4c55662dc9fdafa2d4fa95ca88563ed36e75f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 26/73] fix: single-qubit chains containing a Hamiltonian
 evolution can be simulated

---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 730dc98..36f0770 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -74,7 +74,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, U, TimeEvolutionBlock)) for b in block])
     )
 
 
-- 
2.43.0


From 0c171c37ba410aff3f392e7a32c15a752be9d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 27/73] fix: adjoint mode returns (batch, observables) for
 several observables

---
 qadence/engines/torch/differentiable_expectation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..392bc63 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -162,7 +162,7 @@ class DifferentiableExpectation:
             )  # we expect (batch_size, n_observables) shape
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
-- 
2.43.0


From 9a49c820f265de50554de03d2c2d7e714ec3f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 28/73] fix: shift rule of a gate without spectral gaps is zero

---
 qadence/backends/parameter_shift_rules.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/parameter_shift_rules.py b/qadence/backends/parameter_shift_rules.py
index 159d479..c2ca9fa 100644
--- a/qadence/backends/parameter_shift_rules.py
+++ b/qadence/backends/parameter_shift_rules.py
@@ -48,7 +48,9 @@ def general_psr(
         sorted_unique_spectral_gaps = torch.arange(0, n_eqs) * gap_step
         sorted_unique_spectral_gaps[0] = 0.001
 
-    if n_eqs == 1:
+    if n_eqs == 0:  # no spectral gap: the expectation value does not depend on the parameter
+        return zero_gap_psr
+    elif n_eqs == 1:
         return partial(
             single_gap_psr,
             spectral_gap=sorted_unique_spectral_gaps,
@@ -64,6 +66,15 @@ def general_psr(
         )
 
 
+def zero_gap_psr(
+    expectation_fn: Callable[[dict[str, Tensor]], Tensor],
+    param_dict: dict[str, Tensor],
+    param_name: str,
+) -> Tensor:
+    """Derivative with respect to a parameter whose operation has a single eigenvalue."""
+    return torch.zeros_like(expectation_fn(param_dict))
+
+
 def single_gap_psr(
     expectation_fn: Callable[[dict[str, Tensor]], Tensor],
     param_dict: dict[str, Tensor],
-- 
2.43.0


From aa1291ee92e496700309940febfc0a8437255785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:42 +0000
Subject: [PATCH 29/73] fix: shift rules differentiate parameters of the
 observable

---
 qadence/backends/parameter_shift_rules.py           | 12 ++++++++++++
 qadence/engines/torch/differentiable_expectation.py |  5 +++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/parameter_shift_rules.py b/qadence/backends/parameter_shift_rules.py
index c2ca9fa..3f09571 100644
--- a/qadence/backends/parameter_shift_rules.py
+++ b/qadence/backends/parameter_shift_rules.py
@@ -75,6 +75,18 @@ def zero_gap_psr(
     return torch.zeros_like(expectation_fn(param_dict))
 
 
+def linear_psr(
+    expectation_fn: Callable[[dict[str, Tensor]], Tensor],
+    param_dict: dict[str, Tensor],
+    param_name: str,
+) -> Tensor:
+    """Derivative with respect to a parameter in which the expectation value is linear."""
+    upper, lower = param_dict.copy(), param_dict.copy()
+    upper[param_name] = upper[param_name] + 0.5
+    lower[param_name] = lower[param_name] - 0.5
+    return expectation_fn(upper) - expectation_fn(lower)
+
+
 def single_gap_psr(
     expectation_fn: Callable[[dict[str, Tensor]], Tensor],
     param_dict: dict[str, Tensor],
diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index 392bc63..6d16125 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -12,6 +12,7 @@ from torch.autograd import Function
 
 from qadence.backend import Backend as QuantumBackend
 from qadence.backend import ConvertedCircuit, ConvertedObservable
+from qadence.backends.parameter_shift_rules import linear_psr
 from qadence.backends.utils import infer_batchsize, is_pyq_shape, param_dict, pyqify, validate_state
 from qadence.blocks.abstract import AbstractBlock
 from qadence.blocks.utils import uuid_to_eigen
@@ -248,6 +249,6 @@ class DifferentiableExpectation:
                 # We need the embedded fixed params of the observable in the param_values dict
                 # to be able to call expectation. Since torch backward requires
                 # a list of param_ids and values of equal length, we need to pass them to PSR too.
-                # Since they are constants their gradients are 0.
-                param_to_psr[param_id] = lambda x: torch.tensor([0.0], requires_grad=False)
+                # The expectation value is linear in the scale factors of the observable.
+                param_to_psr[param_id] = linear_psr
         return param_to_psr
-- 
2.43.0


From 00e447b68b0c9abffc66fad45bac29d9710a6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:33 +0000
Subject: [PATCH 30/73] fix: trainability helpers ignore the matrix of a time
 evolution

---
 qadence/blocks/utils.py    | 3 ++-
 qadence/transpile/block.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 1759b9a..67e07e2 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -423,7 +423,8 @@ def has_duplicate_vparams(block: AbstractBlock) -> bool:
             duplicated parameters or not
     """
     params = parameters(block)
-    non_number = [p for p in params if not p.is_number]
+    # a matrix generator is stored as an array, which is not a parameter
+    non_number = [p for p in params if not isinstance(p, Array) and not p.is_number]
     trainables = [p for p in non_number if p.trainable]
     return len(set(trainables)) != len(trainables)
 
diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 52571dd..637e5a5 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -70,7 +70,10 @@ def set_trainable(
 
     if inplace:
         for block in blocks:
-            params: list[sympy.Basic] = list(filter(lambda p: not p.is_number, parameters(block)))
+            # a matrix generator is stored as an array, which is not a parameter
+            params: list[sympy.Basic] = [
+                p for p in parameters(block) if not isinstance(p, sympy.Array) and not p.is_number
+            ]
             if bool(restricted_names):
                 params = list(filter(lambda p: p.name in restricted_names, params))
             for p in params:
-- 
2.43.0


From 80f7a01b2840d38c6b0141c76936dde6faa5f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:56 +0000
Subject: [PATCH 31/73] fix: Pauli terms with identities or nested products are
 measured on the right qubits

---
 qadence/measurements/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..8353595 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -12,6 +12,7 @@ from torch import Tensor
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
 from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
+from qadence.blocks.utils import primitive_blocks
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
@@ -31,10 +32,11 @@ def get_qubit_indices_for_op(
 
     Returns: A list of integers representing qubit indices.
     """
-    blocks = getattr(pauli_term[0], "blocks", None)
-    blocks = blocks if blocks is not None else [pauli_term[0]]
+    # Identities do not contribute to the parity of the term: without a given op they are skipped.
     indices = [
-        block.qubit_support[0] for block in blocks if (op is None) or (isinstance(block, type(op)))
+        block.qubit_support[0]
+        for block in primitive_blocks(pauli_term[0])
+        if (not isinstance(block, I) if op is None else isinstance(block, type(op)))
     ]
     return indices
 
-- 
2.43.0


From 2eeb1f759f62a2e0e1fc22d67215b2cf37982729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:28 +0000
Subject: [PATCH 32/73] fix: tomography of observables with identity terms

---
 qadence/measurements/utils.py | 47 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 8353595..1fc3aa3 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -151,31 +151,28 @@ def iterate_pauli_decomposition(
     estimated_values = []
 
     for pauli_term in pauli_decomposition:
-        if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
-        else:
-            # Get the full qubit support for the Pauli term.
-            # Note: duplicates must be kept here to allow for
-            # observables chaining multiple operations on the same qubit
-            # such as `b = chain(Z(0), Z(0))`
-            support = get_qubit_indices_for_op(pauli_term)
-            # Rotate the circuit according to the given observable term.
-            rotated_circuit = rotate(circuit=circuit, pauli_term=pauli_term)
-            # Use the low-level backend API to avoid embedding of parameters
-            # already performed at the higher QuantumModel level.
-            # Therefore, parameters passed here have already been embedded.
-            conv_circ = backend.circuit(rotated_circuit)
-            samples = backend.sample(
-                circuit=conv_circ,
-                param_values=param_values,
-                n_shots=n_shots,
-                state=state,
-                noise=noise,
-                endianness=endianness,
-            )
-            estim_values = empirical_average(samples=samples, support=support)
-            # TODO: support for parametric observables to be tested
-            estimated_values.append(estim_values * evaluate(pauli_term[1]))
+        # Get the full qubit support for the Pauli term.
+        # Note: duplicates must be kept here to allow for
+        # observables chaining multiple operations on the same qubit
+        # such as `b = chain(Z(0), Z(0))`
+        support = get_qubit_indices_for_op(pauli_term)
+        # Rotate the circuit according to the given observable term.
+        rotated_circuit = rotate(circuit=circuit, pauli_term=pauli_term)
+        # Use the low-level backend API to avoid embedding of parameters
+        # already performed at the higher QuantumModel level.
+        # Therefore, parameters passed here have already been embedded.
+        conv_circ = backend.circuit(rotated_circuit)
+        samples = backend.sample(
+            circuit=conv_circ,
+            param_values=param_values,
+            n_shots=n_shots,
+            state=state,
+            noise=noise,
+            endianness=endianness,
+        )
+        estim_values = empirical_average(samples=samples, support=support)
+        # TODO: support for parametric observables to be tested
+        estimated_values.append(estim_values * evaluate(pauli_term[1]))
     res = torch.sum(torch.stack(estimated_values), axis=0)
     # Allow for automatic differentiation.
     res.requires_grad = True
-- 
2.43.0


From 605018ffcf901e4cfe8523e2afef6ee9268d9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:56 +0000
Subject: [PATCH 33/73] fix: int_to_basis computes the default width without
 rounding

---
 qadence/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/utils.py b/qadence/utils.py
index df822f0..ea5cabf 100644
--- a/qadence/utils.py
+++ b/qadence/utils.py
@@ -106,7 +106,7 @@ def int_to_basis(
     ```
     """
     if n_qubits is None:
-        n_qubits = int(math.log(k + 0.6) / math.log(2)) + 1
+        n_qubits = max(1, int(k).bit_length())
     assert k <= 2**n_qubits - 1, "k can not be larger than 2**n_qubits-1."
     basis = format(k, "0{}b".format(n_qubits))
     if endianness == Endianness.BIG:
-- 
2.43.0


From 55194d118ec60c2e8d97a39960fec906521cb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:56 +0000
Subject: [PATCH 34/73] fix: empirical averages are normalised by the shots of
 their own sample

---
 qadence/measurements/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1fc3aa3..4937e5a 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -70,9 +70,9 @@ def empirical_average(samples: List, support: List[int]) -> Tensor:
     """
     PARITY = -1
     counters = get_counts(samples, support)
-    n_shots = np.sum(list(counters[0].values()))
     expectations = []
     for counter in counters:
+        n_shots = np.sum(list(counter.values()))
         counter_exps = []
         for bitstring, count in counter.items():
             counter_exps.append(count * PARITY ** (np.sum([int(bit) for bit in bitstring])))
-- 
2.43.0


From c65abd5021689799cb34506779e593b319a34585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:16 +0000
Subject: [PATCH 35/73] fix: registers do not rescale the graph they are built
 from

---
 qadence/register.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index cfc78c0..a7dd686 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -70,7 +70,8 @@ class Register:
 
         self.device_specs = device_specs
 
-        self.graph = support if isinstance(support, nx.Graph) else alltoall_graph(support)
+        # the positions are rescaled below: work on a copy of the user's graph
+        self.graph = support.copy() if isinstance(support, nx.Graph) else alltoall_graph(support)
 
         if spacing is not None and self.min_distance != 0.0:
             _scale_node_positions(self.graph, self.min_distance, spacing)
-- 
2.43.0


From 5336a9e92b26d5d44ff85dcd17cc3193653d80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:16 +0000
Subject: [PATCH 36/73] fix: a square register with one qubit per side has one
 qubit

---
 qadence/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index a7dd686..4e21b37 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -151,7 +151,7 @@ class Register:
         Arguments:
             qubits_side: Number of qubits on one side of the square.
         """
-        n_points = 4 * (qubits_side - 1)
+        n_points = max(1, 4 * (qubits_side - 1))
 
         def gen_points() -> np.ndarray:
             rotate_left = np.array([[0.0, -1.0], [1.0, 0.0]])
-- 
2.43.0


From 45d5ff73f0d074dfff3d8f9a8921e36047764957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:19 +0000
Subject: [PATCH 37/73] fix: Pauli exponentials only touch the qubits of their
 term

---
 qadence/decompose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..52dbd12 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -123,7 +123,8 @@ def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) ->
         indx = [b.qubit_support[0] for b in blist]
         ztarget = max(indx)
 
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
+        ladder = sorted(indx)
+        cnot_sequence = [CNOT(i, j) for i, j in zip(ladder[:-1], ladder[1:])]
         basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
         rot = [RZ(parameter=Parameter(fact), target=ztarget)]
         basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
-- 
2.43.0


From 4d776a088ad0273d2b4ddf6a03fb68ea19f44f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:19 +0000
Subject: [PATCH 38/73] fix: second half of a Suzuki-Trotter step reverses the
 terms, not their gates

---
 qadence/decompose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index 52dbd12..57f75e9 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -91,7 +91,8 @@ def lie_trotter_suzuki(
         if order == Order.ST2:  # Suzuki-Trotter 2nd order
             outer = decompose_pauli_exp(block_list[:-1], Parameter(t_delta / 2.0))
             inner = decompose_pauli_exp([block_list[-1]], Parameter(t_delta))
-            return (outer + inner + list(reversed(outer))) * t_steps
+            outer_bkd = decompose_pauli_exp(block_list[-2::-1], Parameter(t_delta / 2.0))
+            return (outer + inner + outer_bkd) * t_steps
 
         else:  # Suzuki-Trotter 4th order
             p2 = (4 - 4 ** (1 / 3)) ** -1  # minimises the 'ideal' error in the recursive formula
-- 
2.43.0


From 2b37a98e983e72fe792c69530588a8e45ba4abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:38 +0000
Subject: [PATCH 39/73] fix: evolution of identity, number, nested and scaled
 Pauli products is decomposed exactly

---
 qadence/decompose.py | 72 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 13 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index 57f75e9..ccd50b1 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -7,12 +7,12 @@ from typing import Any, List, Tuple, Union
 
 import sympy
 
-from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
+from qadence.blocks import AbstractBlock, AddBlock, CompositeBlock, ScaleBlock
+from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.parameters import Parameter, evaluate
 
 # from qadence.types import TNumber, TParameter
-from qadence.types import PI
+from qadence.types import PI, OpName
 from qadence.types import LTSOrder as Order
 
 logger = getLogger(__name__)
@@ -103,28 +103,74 @@ def lie_trotter_suzuki(
             return (2 * outer + inner + outer * 2) * t_steps
 
 
+def _pauli_products(block: AbstractBlock, scale: Any) -> list[tuple[dict[int, str], Any]]:
+    """Expand a Pauli block into products of X, Y and Z on different qubits with their scales."""
+
+    if isinstance(block, ScaleBlock):
+        return _pauli_products(block.block, scale * block.scale)
+
+    if isinstance(block, AddBlock):
+        return flatten(_pauli_products(b, scale) for b in block.blocks)
+
+    if isinstance(block, CompositeBlock):
+        terms: list[tuple[dict[int, str], Any]] = [({}, scale)]
+        for b in block.blocks:
+            terms = [
+                _multiply_paulis(p2, p1, s1 * s2)
+                for p1, s1 in terms
+                for p2, s2 in _pauli_products(b, 1)
+            ]
+        return terms
+
+    qubit = block.qubit_support[0]
+    if block.name == OpName.I:
+        return [({}, scale)]
+    if block.name == OpName.N:
+        return [({}, scale / 2), ({qubit: OpName.Z}, -scale / 2)]
+    return [({qubit: block.name}, scale)]
+
+
+def _multiply_paulis(
+    left: dict[int, str], right: dict[int, str], scale: Any
+) -> tuple[dict[int, str], Any]:
+    cycle = [OpName.X, OpName.Y, OpName.Z]
+    product = dict(right)
+    for qubit, pauli in left.items():
+        other = product.pop(qubit, None)
+        if other is None:
+            product[qubit] = pauli
+        elif other != pauli:
+            i, j = cycle.index(pauli), cycle.index(other)
+            product[qubit] = cycle[3 - i - j]
+            scale = scale * (1j if (j - i) % 3 == 1 else -1j)
+    return product, scale
+
+
 def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) -> list[AbstractBlock]:
     """A simple function to do decompositions of Pauli exponential operators into digital gates."""
 
     # import here due to circular import issue
-    from qadence.operations import CNOT, RZ
+    from qadence.operations import CNOT, PHASE, RZ, X, Y, Z
 
+    gates = {OpName.X: X, OpName.Y: Y, OpName.Z: Z}
     blocks = []
 
-    for bl, scale in block_list:
-        # extract Pauli operations and raise an error in case
-        # a non-Pauli operation is found since it cannot be
-        # decomposed
-        n_blocks = len(get_pauli_blocks(bl))
+    terms = [(bl, *term) for bl, scale in block_list for term in _pauli_products(bl, scale)]
+    for bl, paulis, scale in terms:
 
         # ensure that we keep the parameter as trainable
         fact = 2.0 * parameter * scale
 
-        blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
-        ztarget = max(indx)
+        if not paulis:
+            # the exponential of the identity is a global phase
+            qubit = bl.qubit_support[0]
+            blocks.extend([RZ(qubit, Parameter(fact)), PHASE(qubit, Parameter(-fact))])
+            continue
+
+        blist: list[AbstractBlock] = [gates[p](q) for q, p in paulis.items()]  # type: ignore
+        ladder = sorted(paulis)
+        ztarget = ladder[-1]
 
-        ladder = sorted(indx)
         cnot_sequence = [CNOT(i, j) for i, j in zip(ladder[:-1], ladder[1:])]
         basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
         rot = [RZ(parameter=Parameter(fact), target=ztarget)]
-- 
2.43.0


From 51229ba5b41b59a476f158edb38db49446f02637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:22 +0000
Subject: [PATCH 40/73] fix: mitigated counts are rounded without moving shots
 between outcomes

---
 qadence/mitigations/readout.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..c0f6739 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -52,17 +52,17 @@ def mle_solve(p_raw: npt.NDArray) -> npt.NDArray:
 
 
 def renormalize_counts(corrected_counts: npt.NDArray, n_shots: int) -> npt.NDArray:
-    """Renormalize counts rounding discrepancies."""
-    total_counts = sum(corrected_counts)
-    if total_counts != n_shots:
-        counts_diff = total_counts - n_shots
-        corrected_counts -= counts_diff
-        corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
-        sum_corrected_counts = sum(corrected_counts)
+    """Round counts to non-negative integers which sum to the number of shots.
 
-        renormalization_factor = n_shots / sum_corrected_counts
-        corrected_counts = np.rint(corrected_counts * renormalization_factor).astype(int)
-    return corrected_counts
+    Every count is first scaled and rounded down, the missing shots go to the
+    counts with the largest remainders.
+    """
+    corrected_counts = np.maximum(corrected_counts, 0)
+    scaled_counts = corrected_counts * (n_shots / corrected_counts.sum())
+    rounded_counts = np.floor(scaled_counts).astype(int)
+    n_missing = n_shots - rounded_counts.sum()
+    rounded_counts[np.argsort(rounded_counts - scaled_counts, kind="stable")[:n_missing]] += 1
+    return rounded_counts
 
 
 def matrix_inv(K: npt.NDArray) -> npt.NDArray:
@@ -144,16 +144,8 @@ def mitigation_minimization(
                 f"Requested method {optimization_type} does not match supported protocols."
             )
 
-        corrected_counts = np.rint(p_corr * n_shots).astype(int)
-
-        # Renormalize if total counts differs from n_shots.
-        corrected_counts = renormalize_counts(corrected_counts=corrected_counts, n_shots=n_shots)
-        # At this point, the count should be off by at most 2, added or substracted to/from the
-        # max count.
-        if sum(corrected_counts) != n_shots:
-            count_diff = sum(corrected_counts) - n_shots
-            max_count_bs = np.argmax(corrected_counts)
-            corrected_counts[max_count_bs] -= count_diff
+        # Round to integer counts with a total of n_shots.
+        corrected_counts = renormalize_counts(corrected_counts=p_corr * n_shots, n_shots=n_shots)
         assert (
             corrected_counts.sum() == n_shots
         ), f"Corrected counts sum: {corrected_counts.sum()}, n_shots: {n_shots}"
-- 
2.43.0


From 4a19c58d3aa062fbffef667d58cf356698228527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 41/73] fix: every mitigated sample keeps its own number of
 shots

---
 qadence/mitigations/readout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c0f6739..65000bc 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -116,6 +116,7 @@ def mitigation_minimization(
         bitstring_length = 2**n_qubits
         # List of bitstrings in lexicographical order.
         ordered_bitstrings = [f"{i:0{n_qubits}b}" for i in range(bitstring_length)]
+        n_shots = sum(sample.values())
         # Array of raw probabilites.
         p_raw = np.array([sample[bs] for bs in ordered_bitstrings]) / n_shots
 
-- 
2.43.0


From 868c3b48f209b24185f28407db38984c2989293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:50 +0000
Subject: [PATCH 42/73] fix: readout mitigation uses the given error
 probability instead of an uninitialised matrix

---
 qadence/mitigations/readout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index 65000bc..d87d256 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -94,11 +94,12 @@ def mitigation_minimization(
     readout_noise = convert_readout_noise(n_qubits, noise)
     if readout_noise is None:
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
-    n_shots = sum(samples[0].values())
     noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
-        readout_noise.create_noise_matrix(n_shots)
-        noise_matrices = readout_noise.confusion_matrix
+    if getattr(readout_noise, "_compute_confusion", False):
+        # Only error probabilities are given: every bit flips with the same chance both ways.
+        flip_proba = readout_noise.error_probability.to(torch.double).expand(n_qubits)
+        noise_matrices = torch.stack([1.0 - flip_proba, flip_proba, flip_proba, 1.0 - flip_proba])
+        noise_matrices = noise_matrices.T.reshape(n_qubits, 2, 2)
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
 
     corrected_counters: list[Counter] = []
-- 
2.43.0


From 26cf9025fce93009de17f143dcd06fcc0ce4f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:16 +0000
Subject: [PATCH 43/73] fix: options of measurement and mitigation protocols
 survive serialization

---
 qadence/measurements/protocols.py | 2 +-
 qadence/mitigations/protocols.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..d3d0bad 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From 0865360c657675c91232773713f58f8b4ec494ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:22 +0000
Subject: [PATCH 44/73] fix: models without an observable can be deserialized

---
 qadence/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..82832a9 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -516,7 +516,7 @@ class QuantumModel(nn.Module):
                 observable=(
                     None
                     if not isinstance(qm_dict["observable"], list)
-                    else [deserialize(q_obs) for q_obs in qm_dict["observable"]]  # type: ignore[misc]
+                    else [deserialize(q_obs) for q_obs in qm_dict["observable"] if q_obs] or None  # type: ignore[misc]
                 ),
                 backend=qm_dict["backend"],
                 diff_mode=qm_dict["diff_mode"],
-- 
2.43.0


From 8a95959ca2a1681e15b97810e564c8ab775a7148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:34 +0000
Subject: [PATCH 45/73] fix: the mitigation setting of a model survives
 serialization

---
 qadence/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index 82832a9..7fc8580 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -484,6 +484,9 @@ class QuantumModel(nn.Module):
                     self._measurement._to_dict() if self._measurement is not None else dict()
                 ),
                 "noise": self._noise._to_dict() if self._noise is not None else dict(),
+                "mitigation": (
+                    self._mitigation._to_dict() if self._mitigation is not None else dict()
+                ),
                 "backend_configuration": asdict(self.backend.backend.config),  # type: ignore
             }
             param_dict_conv = {}
@@ -522,6 +525,7 @@ class QuantumModel(nn.Module):
                 diff_mode=qm_dict["diff_mode"],
                 measurement=Measurements._from_dict(qm_dict["measurement"]),
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
+                mitigation=Mitigations._from_dict(qm_dict.get("mitigation", dict())),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
             )
 
-- 
2.43.0


From 50f0a5e139241949833f65def6137506f78d890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:10 +0000
Subject: [PATCH 46/73] fix: loading a saved model restores the parameters
 stored in the file

---
 qadence/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 75ddc59..6f1aad2 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -483,10 +483,10 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.error(f"File {file_path} not found.")
         raise FileNotFoundError
     FORMAT = file_extension(file_path)
-    _, _, load_fn, _ = FORMAT_DICT[FORMAT]  # type: ignore[index]
+    _, _, load_fn, as_torch = FORMAT_DICT[FORMAT]  # type: ignore[index]
     try:
         d = load_fn(file_path, map_location)
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    return deserialize(d, as_torch)
-- 
2.43.0


From 43905ecb65df5615448c05c9885d992088bf6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:50 +0000
Subject: [PATCH 47/73] fix: qubits which only wait in parallel evolve under
 the interaction

---
 qadence/analog/parse_analog.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..a3b16e0 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -109,12 +109,13 @@ def _analog_to_hevo(
         # the same duration, and clean this code accordingly.
         # https://github.com/pasqal-io/qadence/issues/226
         ops = []
-        for block in block.blocks:
-            if isinstance(block, ConstantAnalogRotation):
-                h_drive = rydberg_drive_hamiltonian(block, register)
-                ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
+        for b in block.blocks:
+            if isinstance(b, ConstantAnalogRotation):
+                h_drive = rydberg_drive_hamiltonian(b, register)
+                ops.append(_build_rot_ham_evo(b, h_int, h_addr, h_drive))
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            # All qubits are only waiting.
+            return _analog_to_hevo(block.blocks[0], register, h_int, h_addr)
         return chain(*ops)
 
     return block
-- 
2.43.0


From e54e384af2c1f7df0f806fed5efecd74fd830eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:16 +0000
Subject: [PATCH 48/73] fix: a single qubit can wait

---
 qadence/analog/parse_analog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index a3b16e0..3e35e0f 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -5,7 +5,7 @@ from qadence.analog.hamiltonian_terms import (
     rydberg_interaction_hamiltonian,
     rydberg_pattern_hamiltonian,
 )
-from qadence.blocks import chain
+from qadence.blocks import chain, kron
 from qadence.blocks.abstract import AbstractBlock
 from qadence.blocks.analog import (
     AnalogKron,
@@ -13,7 +13,7 @@ from qadence.blocks.analog import (
     InteractionBlock,
 )
 from qadence.circuit import QuantumCircuit
-from qadence.operations import HamEvo
+from qadence.operations import HamEvo, I
 from qadence.register import Register
 from qadence.transpile import apply_fn_to_blocks
 
@@ -95,6 +95,9 @@ def _analog_to_hevo(
         h_background = h_int
         if block.add_pattern and h_addr is not None:
             h_background += h_addr
+        if len(h_background.qubit_support) == 0:
+            # A single qubit has nothing to interact with.
+            return kron(*(I(i) for i in register.nodes))
         duration = block.parameters.duration
         return HamEvo(h_background, duration / 1000)
 
-- 
2.43.0


From 5d3db05ae841260b0e7959eb0d32ec060d5527ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:04 +0000
Subject: [PATCH 49/73] fix: the digital HEA of a single qubit consists of its
 rotations

---
 qadence/constructors/hea.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index f12361b..829128f 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -186,18 +186,19 @@ def _entanglers_digital(
     ent_list: list[AbstractBlock] = []
     for d in range(depth):
         ents = []
-        ents.append(
-            kron(
-                _entangler(
-                    control=support[n],
-                    target=support[n + 1],
-                    param_str=param_prefix + f"_ent_{next(iterator)}",
-                    op=entangler,
+        if n_qubits > 1:
+            ents.append(
+                kron(
+                    _entangler(
+                        control=support[n],
+                        target=support[n + 1],
+                        param_str=param_prefix + f"_ent_{next(iterator)}",
+                        op=entangler,
+                    )
+                    for n in range(n_qubits)
+                    if not n % 2 and n < n_qubits - 1
                 )
-                for n in range(n_qubits)
-                if not n % 2 and n < n_qubits - 1
             )
-        )
         if n_qubits > 2:
             ents.append(
                 kron(
@@ -271,7 +272,8 @@ def hea_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        if n_qubits > 1:
+            layers.append(ent_list[d])
     return tag(chain(*layers), "HEA")
 
 
-- 
2.43.0


From d1b5b71d2e3c8fe7a2abdb17572c071918277410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:04 +0000
Subject: [PATCH 50/73] fix: the periodic HEA links the last and the first of
 an odd number of qubits

---
 qadence/constructors/hea.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index 829128f..a87c695 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -212,6 +212,16 @@ def _entanglers_digital(
                     if n % 2
                 )
             )
+        if periodic and n_qubits > 2 and n_qubits % 2:
+            # both qubits of the closing link take part in one of the layers above
+            ents.append(
+                _entangler(
+                    control=support[n_qubits - 1],
+                    target=support[0],
+                    param_str=param_prefix + f"_ent_{next(iterator)}",
+                    op=entangler,
+                )
+            )
         ent_list.append(chain(*ents))
     return ent_list
 
-- 
2.43.0


From ba01301658bf04e2afdfbada98c99de4e35cbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:38 +0000
Subject: [PATCH 51/73] fix: the default entangler of the digital-analog HEA
 acts on the given qubits

---
 qadence/constructors/hea.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index a87c695..7a7d38e 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -6,6 +6,7 @@ from typing import Any, Type, Union
 from qadence.blocks import AbstractBlock, block_is_qubit_hamiltonian, chain, kron, tag
 from qadence.constructors.hamiltonians import hamiltonian_factory
 from qadence.operations import CNOT, CPHASE, CRX, CRY, CRZ, CZ, RX, RY, HamEvo
+from qadence.transpile import reassign
 from qadence.types import Interaction, Strategy
 
 DigitalEntanglers = Union[CNOT, CZ, CRZ, CRY, CRX]
@@ -339,9 +340,10 @@ def hea_sDAQC(
         The step-wise digital-analog Hardware Efficient Ansatz (sDA HEA) circuit.
     """
 
-    # TODO: Add qubit support
     if entangler is None:
         entangler = hamiltonian_factory(n_qubits, interaction=Interaction.NN)
+        if support is not None:
+            entangler = reassign(entangler, dict(enumerate(support)))
     try:
         if not block_is_qubit_hamiltonian(entangler):
             raise ValueError(
-- 
2.43.0


From 1d05e47783d4d720183f9b0973256436cc66a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:38 +0000
Subject: [PATCH 52/73] fix: the alternating layer ansatz leaves out empty
 entangling layers

---
 qadence/constructors/ala.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qadence/constructors/ala.py b/qadence/constructors/ala.py
index e7b5578..ec989b4 100644
--- a/qadence/constructors/ala.py
+++ b/qadence/constructors/ala.py
@@ -170,7 +170,7 @@ def _entanglers_ala_block_digital(
     for d in range(depth):
         start_i = 0 if not d % 2 else -m_block_qubits // 2
         ents = [
-            kron(
+            [
                 _entangler(
                     control=support[i + j],
                     target=support[i + j + 1],
@@ -180,11 +180,12 @@ def _entanglers_ala_block_digital(
                 for j in range(start_j, m_block_qubits, 2)
                 for i in range(start_i, n_qubits, m_block_qubits)
                 if i + j + 1 < n_qubits and j + 1 < m_block_qubits and i + j >= 0
-            )
+            ]
             for start_j in [i for i in range(2) if m_block_qubits > 2 or i == 0]
         ]
 
-        ent_list.append(chain(*ents))
+        # small or shifted blocks may leave nothing to entangle
+        ent_list.append(chain(*[kron(*ent) for ent in ents if ent]))
     return ent_list
 
 
@@ -244,7 +245,8 @@ def ala_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        if len(ent_list[d]) > 0:
+            layers.append(ent_list[d])
 
     return tag(chain(*layers), "ALA")
 
-- 
2.43.0


From b1a487e13ff279b67abaa174613ad055378f7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:38 +0000
Subject: [PATCH 53/73] fix: parameters of different layers of the identity
 initialized ansatz have different names

---
 qadence/constructors/iia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/constructors/iia.py b/qadence/constructors/iia.py
index 889d92f..4b55c9c 100644
--- a/qadence/constructors/iia.py
+++ b/qadence/constructors/iia.py
@@ -84,7 +84,7 @@ def _rotations(
                 gate(
                     target=n,  # type: ignore [call-arg]
                     parameter=Parameter(  # type: ignore [call-arg]
-                        name=param_str + f"_{layer}{n + n_qubits * idx(i)}",
+                        name=param_str + f"_{layer}_{n + n_qubits * idx(i)}",
                         value=values[n + n_qubits * idx(i)],
                         trainable=True,
                     ),
@@ -166,7 +166,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=n + 1,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits - 1)
@@ -178,7 +178,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=(n + 1) % n_qubits,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits)
@@ -212,7 +212,7 @@ def identity_initialized_ansatz(
             kron(
                 RX(
                     target=n,
-                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}{n}", value=gamma[n]),
+                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}_{n}", value=gamma[n]),
                 )
                 for n in range(n_qubits)
             )
-- 
2.43.0


From 634700cd38e866b8859a92597252c641dfbad659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 54/73] fix: the configured depth and operations of an
 alternating layer ansatz are used

---
 qadence/ml_tools/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..e6b0a51 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -612,12 +612,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From 1c4d1464ea1a1708c8657d56066ce9c4257747a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 55/73] fix: alternating layer ansatze can be interleaved with
 feature map layers

---
 qadence/ml_tools/constructors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index e6b0a51..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
-- 
2.43.0


From d585085ed0094c13b173e289a845432523537ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:25 +0000
Subject: [PATCH 56/73] fix: the digital-analog identity initialized ansatz
 defaults to the NN interaction

---
 qadence/ml_tools/constructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..148461f 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,7 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    entangler = config.strategy_args.get("entangler", None)
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From c5b27c0b64501d6379b10f6693252bac86540278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:13 +0000
Subject: [PATCH 57/73] fix: overlap methods running one circuit receive the
 values of bra and ket

---
 qadence/overlap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..efde50f 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -397,7 +397,12 @@ class Overlap(QuantumModel):
 
         elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
-                param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                if self.method in [OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON]:
+                    param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                else:
+                    # bra and ket are part of the same circuits, hence need all the values
+                    all_param_values = {**ket_param_values, **bra_param_values}
+                    param_values = {"bra": all_param_values, "ket": all_param_values}
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
 
-- 
2.43.0


From 81bae4c8385e8134e5520a55c0ec7817f7113106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:13 +0000
Subject: [PATCH 58/73] fix: overlaps accept single parameter values of zero
 dimensions

---
 qadence/overlap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index efde50f..7a2bfe5 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -443,8 +443,8 @@ class Overlap(QuantumModel):
         if len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             overlap = overlap[:, None]
         else:
-            batch_size_bra = max(len(list(bra_param_values.values())[0]), 1)
-            batch_size_ket = max(len(list(ket_param_values.values())[0]), 1)
+            batch_size_bra = list(bra_param_values.values())[0].numel()
+            batch_size_ket = list(ket_param_values.values())[0].numel()
             overlap = overlap.reshape((batch_size_ket, batch_size_bra)).t()
 
         return overlap
-- 
2.43.0


From ee48f6fed631b32ac68550c8efc9b56431f5c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:13 +0000
Subject: [PATCH 59/73] fix: overlap methods running one circuit reject
 different values of one parameter

---
 qadence/overlap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 7a2bfe5..6d4596e 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -401,6 +401,12 @@ class Overlap(QuantumModel):
                     param_values = {"bra": bra_param_values, "ket": ket_param_values}
                 else:
                     # bra and ket are part of the same circuits, hence need all the values
+                    for name in bra_param_values.keys() & ket_param_values.keys():
+                        if not torch.equal(bra_param_values[name], ket_param_values[name]):
+                            raise ValueError(
+                                f"Bra and ket need different values of parameter '{name}'. Please "
+                                f"use different names, or the method '{OverlapMethod.EXACT}'."
+                            )
                     all_param_values = {**ket_param_values, **bra_param_values}
                     param_values = {"bra": all_param_values, "ket": all_param_values}
             else:
-- 
2.43.0


From c6f1c27ec4625ff707dfeaa8dc90ceac0191d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:51 +0000
Subject: [PATCH 60/73] fix: the norm difference of counters compares the
 counts of the same outcomes

---
 qadence/divergences.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/divergences.py b/qadence/divergences.py
index 0610863..0d1428b 100644
--- a/qadence/divergences.py
+++ b/qadence/divergences.py
@@ -41,10 +41,11 @@ def js_divergence(counter_p: Counter, counter_q: Counter) -> float:
 def norm_difference(counter_p: Counter, counter_q: Counter) -> float:
     # Normalise counters
 
-    counter_p = np.array([v for v in counter_p.values()])
-    counter_q = np.array([v for v in counter_q.values()])
+    outcomes = list({**counter_p, **counter_q})
+    array_p = np.array([counter_p.get(k, 0) for k in outcomes])
+    array_q = np.array([counter_q.get(k, 0) for k in outcomes])
 
-    prob_p = counter_p / np.sum(counter_p)
-    prob_q = counter_q / np.sum(counter_q)
+    prob_p = array_p / np.sum(array_p)
+    prob_q = array_q / np.sum(array_q)
 
     return float(np.linalg.norm(prob_p - prob_q))
-- 
2.43.0


From 515b89e56248fbf630f105fcdbab6189a8de7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:51 +0000
Subject: [PATCH 61/73] fix: outcomes counted zero times do not contribute to
 the entropy

---
 qadence/divergences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/divergences.py b/qadence/divergences.py
index 0d1428b..f679879 100644
--- a/qadence/divergences.py
+++ b/qadence/divergences.py
@@ -6,7 +6,7 @@ import numpy as np
 
 
 def shannon_entropy(counter: Counter) -> float:
-    return float(-np.sum([count * np.log(count) for count in counter.values()]))
+    return float(-np.sum([count * np.log(count) for count in counter.values() if count > 0]))
 
 
 def js_divergence(counter_p: Counter, counter_q: Counter) -> float:
-- 
2.43.0


From 6b6784ec4cbf37290d354d34690f5f393ab999b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:52 +0000
Subject: [PATCH 62/73] fix: the Jensen-Shannon overlap is computed for every
 element of the batch

---
 qadence/overlap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 6d4596e..a7eff52 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -181,6 +181,9 @@ def overlap_jensen_shannon(bras: list[Counter], kets: list[Counter]) -> Tensor:
     Returns:
         Tensor: overlap tensor containing values of overlap of each bra with each ket
     """
+    # a circuit without batched parameters is compared with every element of the other batch
+    bras = bras * len(kets) if len(bras) == 1 else bras
+    kets = kets * len(bras) if len(kets) == 1 else kets
     return 1 - torch.tensor([js_divergence(p, q) for p, q in zip(bras, kets)])
 
 
-- 
2.43.0


From c3955304f1f5825dec795dd8d3d859a18bf3cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:03 +0000
Subject: [PATCH 63/73] fix: the noise of one expectation call does not affect
 later calls of the model

---
 qadence/model.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index 7fc8580..37535d6 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -436,8 +436,6 @@ class QuantumModel(nn.Module):
             measurement = self._measurement
         if noise is None:
             noise = self._noise
-        else:
-            self._noise = noise
         if mitigation is None:
             mitigation = self._mitigation
         return self.backend.expectation(
-- 
2.43.0


From 201bf47fb8454d70301f0af2275e742fc4accb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:03 +0000
Subject: [PATCH 64/73] fix: QNN.expectation uses the given observable and
 mitigation

---
 qadence/ml_tools/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..e23d7f1 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
-            endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
+            endianness=endianness,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 947640f725d6f55f742a4265e3d223a5ced3b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:03 +0000
Subject: [PATCH 65/73] fix: running a list of circuits returns their states

---
 qadence/execution.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..7b3b025 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -103,10 +103,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 
 @run.register
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
-    results = ()
-    for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
-    return concat(results, dim=0)
+    return concat([run(c, **kwargs) for c in circs], dim=0)
 
 
 @singledispatch
-- 
2.43.0


From de6c62dbe4b3407a143e7344c823fb89e1069aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:03 +0000
Subject: [PATCH 66/73] fix: changing which parameters are trained keeps the
 stored values of the model

---
 qadence/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index 37535d6..6e375ce 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -207,6 +207,11 @@ class QuantumModel(nn.Module):
             current_config = self.backend.backend.config
         BackendConfiguration.change_config(current_config, new_config)
 
+    def _keep_stored_values(self, stored: nn.ParameterDict) -> None:
+        for key, val in stored.items():
+            if key in self._params:
+                self._params[key].data = val.data
+
     def set_as_variational(self, params: list[str] = list()) -> None:
         """Set as variational the list of names in `params`.
 
@@ -229,6 +234,7 @@ class QuantumModel(nn.Module):
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
         self._observable = conv.observable
+        stored = self._params
         if check_param_dict_values(conv.params):
             self._params = nn.ParameterDict(
                 {
@@ -243,6 +249,7 @@ class QuantumModel(nn.Module):
                     for key, val in merge_separate_params(conv.params).items()
                 }
             )
+        self._keep_stored_values(stored)
 
     def set_as_fixed(self, params: list[str] = list()) -> None:
         """Set as fixed the list of names in `params`.
@@ -266,6 +273,7 @@ class QuantumModel(nn.Module):
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
         self._observable = conv.observable
+        stored = self._params
         if check_param_dict_values(conv.params):
             self._params = nn.ParameterDict(
                 {
@@ -280,6 +288,7 @@ class QuantumModel(nn.Module):
                     for key, val in merge_separate_params(conv.params).items()
                 }
             )
+        self._keep_stored_values(stored)
 
     def circuit(self, circuit: QuantumCircuit) -> ConvertedCircuit:
         """Get backend-converted circuit.
-- 
2.43.0


From ba2ef526afd47acfc8c121080c18b65723dd688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:05 +0000
Subject: [PATCH 67/73] fix: expressions dividing by expressions of the same
 parameter are evaluated correctly

---
 qadence/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index c9a8f90..dddae84 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -291,7 +291,8 @@ def evaluate(expr: Expr, values: dict | None = None, as_torch: bool = False) ->
         if as_torch:
             res_value = make_differentiable(expr)(**{s.name: tensor(v) for s, v in query.items()})
         else:
-            res = expr.subs(query)
+            # a parameter compares equal to every expression containing it, which misleads `subs`
+            res = expr.xreplace({s: sympify(v) for s, v in query.items()})
             res_value = sympy_to_numeric(res)
         return res_value
 
-- 
2.43.0


From db5ff08029f1d54904bb440e6ae72467e558116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:42 +0000
Subject: [PATCH 68/73] fix: classical shadows of one-qubit circuits failed
 with an AttributeError

---
 qadence/measurements/shadow.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..37e029b 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -116,9 +116,7 @@ def extract_operators(unitary_ids: np.ndarray, n_qubits: int) -> list:
         list: Pauli strings.
     """
     operations = nested_operator_indexing(unitary_ids)
-    if n_qubits > 1:
-        operations = [kron_if_non_empty(ops) for ops in operations]
-    return operations
+    return [kron_if_non_empty(ops) for ops in operations]
 
 
 def classical_shadow(
-- 
2.43.0


From 46a02e7f91e41892211cb60cc13e8cf61a50f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:42 +0000
Subject: [PATCH 69/73] fix: shadow estimators matched the Pauli factors with
 the sorted qubits, not with their own

---
 qadence/measurements/shadow.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 37e029b..a60fa4f 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,6 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
@@ -202,11 +201,10 @@ def estimators(
         obs_to_pauli_index = [pauli_gates.index(type(observable))]
 
     elif isinstance(observable, CompositeBlock):
-        obs_to_pauli_index = [
-            pauli_gates.index(type(p)) for p in observable.blocks if not isinstance(p, I)  # type: ignore[arg-type]
-        ]
-        ind_I = set(get_qubit_indices_for_op((observable, 1.0), I(0)))
-        obs_qubit_support = tuple([ind for ind in observable.qubit_support if ind not in ind_I])
+        # Factors may come in any order: keep each Pauli index with its qubit.
+        paulis = [p for p in observable.blocks if not isinstance(p, I)]
+        obs_to_pauli_index = [pauli_gates.index(type(p)) for p in paulis]  # type: ignore[arg-type]
+        obs_qubit_support = tuple(p.qubit_support[0] for p in paulis)
 
     floor = int(np.floor(N / K))
     traces = []
-- 
2.43.0


From c7420868e40fbc5879e2b2215511239a06c93fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:35 +0000
Subject: [PATCH 70/73] fix: cosine annealing starts from the initial learning
 rate at every iteration

---
 qadence/ml_tools/callbacks/callback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..5cf1eb2 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,8 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            # Anneal from the initial learning rate, not from the one of the previous call.
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From 98773aa1555d5bfa8a9ce0a4c73682a27fc1d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:35 +0000
Subject: [PATCH 71/73] fix: a new iterator over an infinite dataset no longer
 reorders the passes of earlier iterators

---
 qadence/ml_tools/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index f8f30e9..235c04f 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -83,9 +83,11 @@ class InfiniteTensorDataset(IterableDataset):
             raise ValueError("Size of first dimension must be the same for all tensors.")
 
         # Shuffle the indices for every full pass
-        random.shuffle(self.indices)
+        # on a copy: other iterators over this dataset may be in the middle of a pass
+        indices = list(self.indices)
+        random.shuffle(indices)
         while True:
-            for idx in self.indices:
+            for idx in indices:
                 yield tuple(t[idx] for t in self.tensors)
 
 
-- 
2.43.0


From e8fe787edabd434a77c31010f7e40d6c237ab41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:35 +0000
Subject: [PATCH 72/73] fix: moving a dataloader to a device keeps its batch
 size and shuffling

---
 qadence/ml_tools/data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index 235c04f..b4344b3 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -10,7 +10,7 @@ from torch import Tensor
 from torch import device as torch_device
 from torch.nn import Module
 from torch.optim import Optimizer
-from torch.utils.data import DataLoader, IterableDataset, TensorDataset
+from torch.utils.data import DataLoader, IterableDataset, RandomSampler, TensorDataset
 
 
 @dataclass
@@ -145,7 +145,13 @@ def _(xs: dict, *args: Any, **kwargs: Any) -> dict:
 
 @data_to_device.register(DataLoader)
 def _(xs: DataLoader, *args: Any, **kwargs: Any) -> DataLoader:
-    return DataLoader(data_to_device(xs.dataset, *args, **kwargs))
+    return DataLoader(
+        data_to_device(xs.dataset, *args, **kwargs),
+        batch_size=xs.batch_size,
+        shuffle=isinstance(xs.sampler, RandomSampler),
+        drop_last=xs.drop_last,
+        collate_fn=xs.collate_fn,
+    )
 
 
 @data_to_device.register(DictDataLoader)
-- 
2.43.0


From 84b35d536c5f97bd11e234d23db844cf94a73ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:59 +0000
Subject: [PATCH 73/73] fix: Trainer.test evaluates every batch of the test
 data, also of the dataloader given at construction

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0

