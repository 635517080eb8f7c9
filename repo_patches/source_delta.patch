From 9a2811d9d4f373ed024f90c6c0476eec39e9fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 01/80] fix: arithmetic of Scaling operators must promote, not
 truncate, the dtype

---
 src/probnum/linops/_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index 038b566..9368006 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -213,7 +213,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
             )
 
         return Scaling(
-            factors=self.factors + other.factors, shape=self.shape, dtype=self.dtype
+            factors=self.factors + other.factors, shape=self.shape
         )
 
     def _sub_scaling(self, other: "Scaling") -> "Scaling":
@@ -224,7 +224,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
             )
 
         return Scaling(
-            factors=self.factors - other.factors, shape=self.shape, dtype=self.dtype
+            factors=self.factors - other.factors, shape=self.shape
         )
 
     def _mul_scaling(self, other: "Scaling") -> "Scaling":
@@ -235,7 +235,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
             )
 
         return Scaling(
-            factors=self.factors * other.factors, shape=self.shape, dtype=self.dtype
+            factors=self.factors * other.factors, shape=self.shape
         )
 
     def _matmul_scaling(self, other: "Scaling") -> "Scaling":
-- 
2.43.0


From 77f823432e74eb6af7d1449877e074bee7e0b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 02/80] fix: casting and Cholesky-factorizing transposed
 operators must not recurse infinitely

---
 src/probnum/linops/_linear_operator.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 81854bd..c7df50c 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1482,17 +1482,9 @@ class TransposedLinearOperator(LambdaLinearOperator):
             diagonal=self._linop.diagonal,
         )
 
-    def _astype(
-        self, dtype: np.dtype, order: str, casting: str, copy: bool
-    ) -> LinearOperator:
-        return self._linop.astype(dtype, order=order, casting=casting, copy=copy).T
-
     def __repr__(self) -> str:
         return f"Transpose of {self._linop}"
 
-    def _cholesky(self, lower: bool = True) -> LinearOperator:
-        return super().cholesky(lower)
-
 
 class _InverseLinearOperator(LambdaLinearOperator):
     def __init__(self, linop: LinearOperator):
-- 
2.43.0


From ec4e9f31d69c584ec7b288c7a5c5cb439b215d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 03/80] fix: transpose of a Selection with repeated indices
 must accumulate

---
 src/probnum/linops/_linear_operator.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index c7df50c..cde67ea 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1785,11 +1785,6 @@ class Selection(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _selection_matmul(self.indices, x),
             todense=self._todense,
-            transpose=lambda: Embedding(
-                take_indices=np.arange(len(self._indices)),
-                put_indices=self._indices,
-                shape=(self.shape[1], self.shape[0]),
-            ),
         )
 
     @property
@@ -1802,6 +1797,17 @@ class Selection(LambdaLinearOperator):
         res = np.eye(self.shape[1], self.shape[1])
         return _selection_matmul(self.indices, res)
 
+    def _transpose(self) -> LinearOperator:
+        if len(set(self._indices)) < len(self._indices):
+            # The transpose accumulates repeated indices, i.e. it is no embedding
+            return super()._transpose()
+
+        return Embedding(
+            take_indices=np.arange(len(self._indices)),
+            put_indices=self._indices,
+            shape=(self.shape[1], self.shape[0]),
+        )
+
 
 def _selection_matmul(indices, M):
     return np.take(M, indices=indices, axis=-2)
-- 
2.43.0


From e0d5c5bb63ba708d77228da3733499e2cbe6d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 04/80] fix: transpose and dense form of an Embedding must
 respect its take indices

---
 src/probnum/linops/_linear_operator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index cde67ea..a860e41 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1849,13 +1849,24 @@ class Embedding(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _embedding_matmul(self, x),
             todense=self._todense,
-            transpose=lambda: Selection(
-                indices=put_indices, shape=(self.shape[1], self.shape[0])
-            ),
         )
 
     def _todense(self):
-        return self.T.todense().T
+        return _embedding_matmul(self, np.eye(self.shape[1]))
+
+    def _transpose(self) -> LinearOperator:
+        if sorted(self._take_indices) != list(range(self.shape[1])) or len(
+            set(self._put_indices)
+        ) < len(self._put_indices):
+            # Not every input entry is written exactly once: no selection
+            return super()._transpose()
+
+        return Selection(
+            indices=tuple(
+                put_idx for _, put_idx in sorted(zip(self._take_indices, self._put_indices))
+            ),
+            shape=(self.shape[1], self.shape[0]),
+        )
 
 
 def _embedding_matmul(embedding, M):
-- 
2.43.0


From adee0fe60b2cd37fe5551ce58277d4f38954faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 05/80] fix: Selection @ Embedding is the identity only if the
 embedding keeps the order

---
 src/probnum/linops/_arithmetic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 00ec028..e776649 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -319,8 +319,11 @@ def _matmul_selection_embedding(
     selection: Selection, embedding: Embedding
 ) -> Union[NotImplementedType, Identity]:
 
-    if (embedding.shape[-1] == selection.shape[-2]) and np.all(
-        selection.indices == embedding._put_indices
+    if (
+        embedding.shape[-1] == selection.shape[-2]
+        and len(set(embedding._put_indices)) == len(embedding._put_indices)
+        and selection.indices == embedding._put_indices
+        and embedding._take_indices == tuple(range(embedding.shape[-1]))
     ):
         return Identity(shape=(selection.shape[-2], embedding.shape[-1]))
 
-- 
2.43.0


From 8383d9dc2f263f494e61c3d0ce49786237b0dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 06/80] fix: matrix operators of incompatible shapes must not
 be broadcast against each other

---
 src/probnum/linops/_arithmetic.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index e776649..36ee05a 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -248,11 +248,19 @@ _matmul_fns[(Kronecker, IdentityKronecker)] = Kronecker._matmul_kronecker
 _matmul_fns[(IdentityKronecker, Kronecker)] = Kronecker._matmul_kronecker
 
 # Matrix
-def _matmul_scaling_matrix(scaling: Scaling, matrix: Matrix) -> Matrix:
+def _matmul_scaling_matrix(
+    scaling: Scaling, matrix: Matrix
+) -> Union[Matrix, NotImplementedType]:
+    if scaling.shape[1] != matrix.shape[0]:
+        return NotImplemented
     return Matrix(A=np.multiply(scaling.factors[:, np.newaxis], matrix.A))
 
 
-def _matmul_matrix_scaling(matrix: Matrix, scaling: Scaling) -> Matrix:
+def _matmul_matrix_scaling(
+    matrix: Matrix, scaling: Scaling
+) -> Union[Matrix, NotImplementedType]:
+    if matrix.shape[1] != scaling.shape[0]:
+        return NotImplemented
     return Matrix(A=np.multiply(matrix.A, scaling.factors))
 
 
@@ -268,8 +276,21 @@ _matmul_fns[(Embedding, Matrix)] = lambda emb, mat: Matrix(emb @ mat.A)
 _matmul_fns[(Matrix, Selection)] = lambda mat, sel: Matrix(mat.A @ sel)
 _matmul_fns[(Matrix, Embedding)] = lambda mat, emb: Matrix(mat.A @ emb)
 
-_add_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A + mat2.A)
-_sub_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A - mat2.A)
+
+def _add_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Union[Matrix, NotImplementedType]:
+    if mat1.shape != mat2.shape:
+        return NotImplemented
+    return Matrix(mat1.A + mat2.A)
+
+
+def _sub_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Union[Matrix, NotImplementedType]:
+    if mat1.shape != mat2.shape:
+        return NotImplemented
+    return Matrix(mat1.A - mat2.A)
+
+
+_add_fns[(Matrix, Matrix)] = _add_matrix_matrix
+_sub_fns[(Matrix, Matrix)] = _sub_matrix_matrix
 
 
 def _matmul_matrix_wrapped(
-- 
2.43.0


From a41845db95bb92d41e43442a2623c23a19125955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 07/80] fix: products of sparse matrix operators with scalings,
 selections, embeddings and wrapped operators

---
 src/probnum/linops/_arithmetic.py | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 36ee05a..02698e7 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -251,7 +251,7 @@ _matmul_fns[(IdentityKronecker, Kronecker)] = Kronecker._matmul_kronecker
 def _matmul_scaling_matrix(
     scaling: Scaling, matrix: Matrix
 ) -> Union[Matrix, NotImplementedType]:
-    if scaling.shape[1] != matrix.shape[0]:
+    if scaling.shape[1] != matrix.shape[0] or scipy.sparse.issparse(matrix.A):
         return NotImplemented
     return Matrix(A=np.multiply(scaling.factors[:, np.newaxis], matrix.A))
 
@@ -259,7 +259,7 @@ def _matmul_scaling_matrix(
 def _matmul_matrix_scaling(
     matrix: Matrix, scaling: Scaling
 ) -> Union[Matrix, NotImplementedType]:
-    if matrix.shape[1] != scaling.shape[0]:
+    if matrix.shape[1] != scaling.shape[0] or scipy.sparse.issparse(matrix.A):
         return NotImplemented
     return Matrix(A=np.multiply(matrix.A, scaling.factors))
 
@@ -271,10 +271,26 @@ _matmul_fns[(Scaling, Matrix)] = _matmul_scaling_matrix
 _matmul_fns[(Matrix, Scaling)] = _matmul_matrix_scaling
 
 
-_matmul_fns[(Selection, Matrix)] = lambda sel, mat: Matrix(sel @ mat.A)
-_matmul_fns[(Embedding, Matrix)] = lambda emb, mat: Matrix(emb @ mat.A)
-_matmul_fns[(Matrix, Selection)] = lambda mat, sel: Matrix(mat.A @ sel)
-_matmul_fns[(Matrix, Embedding)] = lambda mat, emb: Matrix(mat.A @ emb)
+def _matmul_op_matrix(
+    op: Union[Selection, Embedding], mat: Matrix
+) -> Union[Matrix, NotImplementedType]:
+    if scipy.sparse.issparse(mat.A):
+        return NotImplemented
+    return Matrix(op @ mat.A)
+
+
+def _matmul_matrix_op(
+    mat: Matrix, op: Union[Selection, Embedding]
+) -> Union[Matrix, NotImplementedType]:
+    if scipy.sparse.issparse(mat.A):
+        return NotImplemented
+    return Matrix(mat.A @ op)
+
+
+_matmul_fns[(Selection, Matrix)] = _matmul_op_matrix
+_matmul_fns[(Embedding, Matrix)] = _matmul_op_matrix
+_matmul_fns[(Matrix, Selection)] = _matmul_matrix_op
+_matmul_fns[(Matrix, Embedding)] = _matmul_matrix_op
 
 
 def _add_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Union[Matrix, NotImplementedType]:
@@ -296,7 +312,7 @@ _sub_fns[(Matrix, Matrix)] = _sub_matrix_matrix
 def _matmul_matrix_wrapped(
     mat: Matrix, wrapped: Union[_InverseLinearOperator, TransposedLinearOperator]
 ) -> Union[Matrix, NotImplementedType]:
-    if not config.lazy_matrix_matrix_matmul:
+    if not config.lazy_matrix_matrix_matmul and not scipy.sparse.issparse(mat.A):
         return Matrix(mat.A @ wrapped)
     return NotImplemented
 
@@ -304,7 +320,7 @@ def _matmul_matrix_wrapped(
 def _matmul_wrapped_matrix(
     wrapped: Union[_InverseLinearOperator, TransposedLinearOperator], mat: Matrix
 ) -> Union[Matrix, NotImplementedType]:
-    if not config.lazy_matrix_matrix_matmul:
+    if not config.lazy_matrix_matrix_matmul and not scipy.sparse.issparse(mat.A):
         return Matrix(wrapped @ mat.A)
     return NotImplemented
 
-- 
2.43.0


From 975807dcb1558b1fb890f077327f58a32ace8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:16 +0000
Subject: [PATCH 08/80] fix: equality of sparse matrix operators must be
 decidable

---
 src/probnum/linops/_linear_operator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index a860e41..1afd673 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1657,7 +1657,10 @@ class Matrix(LambdaLinearOperator):
         if not self._is_type_shape_dtype_equal(other):
             return False
 
-        return np.all(self.A == other.A)
+        if isinstance(self.A, np.ndarray) and isinstance(other.A, np.ndarray):
+            return np.all(self.A == other.A)
+
+        return np.all(self.todense() == other.todense())
 
     def __neg__(self) -> "Matrix":
         return Matrix(-self.A)
-- 
2.43.0


From 0e6d3648d375921728da4f021989544208f215a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:48 +0000
Subject: [PATCH 09/80] fix: eigenvalues of a cast operator must keep their
 imaginary parts

---
 src/probnum/linops/_linear_operator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 1afd673..c093843 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1571,7 +1571,7 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             transpose=lambda: self._linop.T.astype(dtype),
             inverse=lambda: self._linop.inv().astype(self._inexact_dtype),
             rank=self._linop.rank,
-            eigvals=lambda: self._linop.eigvals().astype(self._inexact_dtype),
+            eigvals=self._cast_eigvals,
             cond=lambda p: self._linop.cond(p=p).astype(self._inexact_dtype),
             det=lambda: self._linop.det().astype(self._inexact_dtype),
             logabsdet=lambda: self._linop.logabsdet().astype(self._inexact_dtype),
@@ -1579,6 +1579,15 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             diagonal=lambda: self._linop.diagonal().astype(dtype),
         )
 
+    def _cast_eigvals(self) -> np.ndarray:
+        eigvals = self._linop.eigvals()
+
+        if np.iscomplexobj(eigvals):
+            # The eigenvalues of a real matrix can be complex
+            return eigvals.astype(np.result_type(self._inexact_dtype, np.complex64))
+
+        return eigvals.astype(self._inexact_dtype)
+
     def _astype(
         self, dtype: np.dtype, order: str, casting: str, copy: bool
     ) -> LinearOperator:
-- 
2.43.0


From 3bbb0bccbd97777dac9585aec23bd322ca5c7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:48 +0000
Subject: [PATCH 10/80] fix: Cholesky factorization of Kronecker and
 block-diagonal operators whose parts are not flagged symmetric

---
 src/probnum/linops/_block.py     |  4 +--
 src/probnum/linops/_kronecker.py | 44 ++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/probnum/linops/_block.py b/src/probnum/linops/_block.py
index 3addc77..1bb5da4 100644
--- a/src/probnum/linops/_block.py
+++ b/src/probnum/linops/_block.py
@@ -137,8 +137,8 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
             return np.concatenate([block.diagonal() for block in self.blocks])
         return super()._diagonal()
 
-    def _cholesky(self, lower: bool) -> BlockDiagonalMatrix:
-        if self._all_blocks_square:
+    def _cholesky(self, lower: bool) -> _linear_operator.LinearOperator:
+        if all(block.is_symmetric for block in self.blocks):
             return BlockDiagonalMatrix(
                 *[block.cholesky(lower) for block in self.blocks]
             )
diff --git a/src/probnum/linops/_kronecker.py b/src/probnum/linops/_kronecker.py
index f62598c..7cc7cab 100644
--- a/src/probnum/linops/_kronecker.py
+++ b/src/probnum/linops/_kronecker.py
@@ -224,15 +224,20 @@ class Kronecker(_linear_operator.LinearOperator):
 
         return NotImplemented
 
-    def _cholesky(self, lower: bool = True) -> Kronecker:
-        # A Kronecker product is symmetric iff its factors are symmetric, since
-        # (A (x) B)^T = A^T (x) B^T
-        assert self.A.is_symmetric and self.B.is_symmetric
-
-        return Kronecker(
-            A=self.A.cholesky(lower),
-            B=self.B.cholesky(lower),
-        )
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if self.A.is_symmetric and self.B.is_symmetric:
+            try:
+                return Kronecker(
+                    A=self.A.cholesky(lower),
+                    B=self.B.cholesky(lower),
+                )
+            except np.linalg.LinAlgError:
+                # The Kronecker product of two negative definite factors is positive
+                # definite.
+                pass
+
+        # The factors might not be known to be symmetric
+        return super()._cholesky(lower)
 
     def _symmetrize(self) -> _linear_operator.LinearOperator:
         # This is only an approximation to the closest symmetric matrix in the
@@ -441,8 +446,12 @@ class SymmetricKronecker(_linear_operator.LinearOperator):
         return super()._cond(p)
 
     def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
-        if self._identical_factors:
-            return SymmetricKronecker(A=self.A.cholesky(lower))
+        if self._identical_factors and self.A.is_symmetric:
+            try:
+                return SymmetricKronecker(A=self.A.cholesky(lower))
+            except np.linalg.LinAlgError:
+                # The factor might be negative definite
+                pass
 
         return super()._cholesky(lower)
 
@@ -509,11 +518,14 @@ class IdentityKronecker(Kronecker):
         # (I (x) B)^-1 = I (x) B^-1
         return IdentityKronecker(self.num_blocks, B=self.B.inv())
 
-    def _cholesky(self, lower: bool = True) -> IdentityKronecker:
-        return IdentityKronecker(
-            num_blocks=self.num_blocks,
-            B=self.B.cholesky(lower),
-        )
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if self.B.is_symmetric:
+            return IdentityKronecker(
+                num_blocks=self.num_blocks,
+                B=self.B.cholesky(lower),
+            )
+
+        return super()._cholesky(lower)
 
     def _symmetrize(self) -> IdentityKronecker:
         # In contrast to the implementation for the generic Kronecker product, this is
-- 
2.43.0


From f5e44b1097d22dba184b6f0ca15392d7f3bab2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:56 +0000
Subject: [PATCH 11/80] fix: inverse and determinant of square products of
 rectangular operators

---
 src/probnum/linops/_arithmetic_fallbacks.py | 41 ++++++++++++++++-----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_arithmetic_fallbacks.py b/src/probnum/linops/_arithmetic_fallbacks.py
index 0b05771..da5b85e 100644
--- a/src/probnum/linops/_arithmetic_fallbacks.py
+++ b/src/probnum/linops/_arithmetic_fallbacks.py
@@ -203,15 +203,6 @@ class ProductLinearOperator(LambdaLinearOperator):
             transpose=lambda: ProductLinearOperator(
                 *(factor.T for factor in reversed(self._factors))
             ),
-            inverse=lambda: ProductLinearOperator(
-                *(factor.inv() for factor in reversed(self._factors))
-            ),
-            det=lambda: functools.reduce(
-                operator.mul, (factor.det() for factor in self._factors)
-            ),
-            logabsdet=lambda: functools.reduce(
-                operator.add, (factor.logabsdet() for factor in self._factors)
-            ),
         )
 
     @property
@@ -237,9 +228,41 @@ class ProductLinearOperator(LambdaLinearOperator):
         res += "\n]"
         return res
 
+    @property
+    def _all_factors_square(self) -> bool:
+        # A product of rectangular operators can be square
+        return all(factor.is_square for factor in self._factors)
+
     def _solve(self, B: np.ndarray) -> np.ndarray:
+        if not self._all_factors_square:
+            return super()._solve(B)
+
         return functools.reduce(lambda b, op: op.solve(b), self._factors, B)
 
+    def _inverse(self) -> LinearOperator:
+        if not self._all_factors_square:
+            return super()._inverse()
+
+        return ProductLinearOperator(
+            *(factor.inv() for factor in reversed(self._factors))
+        )
+
+    def _det(self) -> np.inexact:
+        if not self._all_factors_square:
+            return super()._det()
+
+        return functools.reduce(
+            operator.mul, (factor.det() for factor in self._factors)
+        )
+
+    def _logabsdet(self) -> np.floating:
+        if not self._all_factors_square:
+            return super()._logabsdet()
+
+        return functools.reduce(
+            operator.add, (factor.logabsdet() for factor in self._factors)
+        )
+
 
 def _matmul_fallback(
     op1: BinaryOperandType, op2: BinaryOperandType
-- 
2.43.0


From c521d3163c07989c925a225f475d1928c2a4ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:56 +0000
Subject: [PATCH 12/80] fix: embeddings must keep the dtype of complex operands

---
 src/probnum/linops/_linear_operator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index c093843..050f7d2 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1885,7 +1885,11 @@ def _embedding_matmul(embedding, M):
     # pylint: disable=protected-access
     res_shape = np.array(M.shape)
     res_shape[-2] = embedding.shape[0]
-    res = np.full(shape=tuple(res_shape), fill_value=embedding._fill_value)
+    res = np.full(
+        shape=tuple(res_shape),
+        fill_value=embedding._fill_value,
+        dtype=np.result_type(embedding.dtype, M.dtype),
+    )
     take_from_M = M[..., np.array(embedding._take_indices), :]
     res[..., np.array(embedding._put_indices), :] = take_from_M
     return res
-- 
2.43.0


From b785d5661a2ea72f51303674fcc330aab5b561bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 13/80] fix: Cholesky factors and operator covariances of
 scaled and linearly transformed normal random variables

---
 src/probnum/randvars/_arithmetic.py | 61 +++++++++++++++++++----------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1ea2390..534bf4c 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -252,12 +252,18 @@ def _mul_normal_constant(
 ) -> Union[_Normal, _Constant, type(NotImplemented)]:
     if constant_rv.size == 1:
         if constant_rv.support == 0:
+            if isinstance(norm_rv.mean, _linear_operators.LinearOperator):
+                return _Constant(
+                    support=_linear_operators.Zero(norm_rv.shape, norm_rv.mean.dtype)
+                )
+
             return _Constant(
                 support=np.zeros_like(norm_rv.mean),
             )
 
         if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = constant_rv.support * norm_rv.cov_cholesky
+            # Cholesky factors have a positive diagonal
+            cov_cholesky = np.abs(constant_rv.support) * norm_rv.cov_cholesky
         else:
             cov_cholesky = None
 
@@ -274,6 +280,22 @@ _mul_fns[(_Normal, _Constant)] = _mul_normal_constant
 _mul_fns[(_Constant, _Normal)] = _swap_operands(_mul_normal_constant)
 
 
+def _transform_cov_cholesky(transformation, norm_rv: _Normal, cov):
+    """Cholesky factor of the covariance of a linearly transformed normal random
+    variable, if the Cholesky factor of the original covariance is available."""
+    if not norm_rv.cov_cholesky_is_precomputed:
+        return None
+
+    cov_sqrtm = transformation @ norm_rv.cov_cholesky
+
+    if not isinstance(cov_sqrtm, np.ndarray) or not isinstance(
+        cov, (np.ndarray, np.generic)
+    ):
+        return None
+
+    return _utils.linalg.cholesky_update(cov_sqrtm).reshape(cov.shape)
+
+
 def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal:
     """Normal random variable multiplied with a vector or matrix.
 
@@ -281,20 +303,17 @@ def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal
     is a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[0] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support.T @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
-
         mean = norm_rv.mean @ constant_rv.support
         cov = constant_rv.support.T @ (norm_rv.cov @ constant_rv.support)
 
         if cov.shape == () and mean.shape == (1,):
             cov = cov.reshape((1, 1))
 
-        return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
+        return _Normal(
+            mean=mean,
+            cov=cov,
+            cov_cholesky=_transform_cov_cholesky(constant_rv.support.T, norm_rv, cov),
+        )
 
     # This part does not do the Cholesky update,
     # because of performance configurations: currently, there is no way of switching
@@ -326,16 +345,16 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
     a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[1] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
+        mean = constant_rv.support @ norm_rv.mean
+        cov = constant_rv.support @ (norm_rv.cov @ constant_rv.support.T)
+
+        if cov.shape == () and mean.shape == (1,):
+            cov = cov.reshape((1, 1))
+
         return _Normal(
-            mean=constant_rv.support @ norm_rv.mean,
-            cov=constant_rv.support @ (norm_rv.cov @ constant_rv.support.T),
-            cov_cholesky=cov_cholesky,
+            mean=mean,
+            cov=cov,
+            cov_cholesky=_transform_cov_cholesky(constant_rv.support, norm_rv, cov),
         )
 
     # This part does not do the Cholesky update,
@@ -368,13 +387,13 @@ def _truediv_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Norma
             raise ZeroDivisionError
 
         if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = norm_rv.cov_cholesky / constant_rv.support
+            cov_cholesky = (1 / np.abs(constant_rv.support)) * norm_rv.cov_cholesky
         else:
             cov_cholesky = None
 
         return _Normal(
-            mean=norm_rv.mean / constant_rv.support,
-            cov=norm_rv.cov / (constant_rv.support**2),
+            mean=(1 / constant_rv.support) * norm_rv.mean,
+            cov=(1 / constant_rv.support**2) * norm_rv.cov,
             cov_cholesky=cov_cholesky,
         )
 
-- 
2.43.0


From 67238ed581c4510390d5dd84af8c767403197d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 14/80] fix: probability mass of categorical random variables
 with repeated or array-valued support points

---
 src/probnum/randvars/_categorical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index a669556..c821a48 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -67,8 +67,11 @@ class Categorical(DiscreteRandomVariable):
                     "support."
                 )
 
-            mask = (x == self.support).nonzero()[0]
-            return self.probabilities[mask][0] if len(mask) > 0 else 0.0
+            # The support can be array-valued and can contain elements repeatedly
+            mask = np.all(
+                x == self.support, axis=tuple(range(1, np.ndim(self.support)))
+            )
+            return np.sum(self.probabilities[mask])
 
         def _mode_categorical():
             mask = np.argmax(self.probabilities)
-- 
2.43.0


From 067fe85a2a1fe02e9ea4995cef8d765cbdc9cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 15/80] fix: wrapping a SciPy random variable must not consume
 global random numbers

---
 src/probnum/randvars/_scipy_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_scipy_stats.py b/src/probnum/randvars/_scipy_stats.py
index a8ae635..2c3e954 100644
--- a/src/probnum/randvars/_scipy_stats.py
+++ b/src/probnum/randvars/_scipy_stats.py
@@ -205,8 +205,8 @@ def _rv_init_kwargs_from_scipy_rv(
     scipy_rv
         SciPy random variable.
     """
-    # Infer shape and dtype
-    sample = _return_numpy(scipy_rv.rvs)()
+    # Infer shape and dtype (without affecting the global random state)
+    sample = _return_numpy(scipy_rv.rvs)(random_state=np.random.default_rng(1))
 
     shape = sample.shape
     dtype = sample.dtype
-- 
2.43.0


From b6fb1d12ab81099cb1884a3a7666479df259bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 16/80] fix: support membership and entropy of random variables

---
 src/probnum/randvars/_random_variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index da3e0dd..a3b4f28 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -397,13 +397,13 @@ class RandomVariable(Generic[ValueType]):
 
         in_support = self.__in_support(self._as_value_type(x))
 
-        if not isinstance(in_support, bool):
+        if not isinstance(in_support, (bool, np.bool_)):
             raise ValueError(
                 f"The function `in_support` must return a `bool`, but its return value "
-                f"is of type `{type(x)}`."
+                f"is of type `{type(in_support)}`."
             )
 
-        return in_support
+        return bool(in_support)
 
     def sample(self, rng: np.random.Generator, size: ShapeLike = ()) -> ValueType:
         """Draw realizations from a random variable.
@@ -812,7 +812,7 @@ class RandomVariable(Generic[ValueType]):
     def _ensure_numpy_float(
         cls, name: str, value: Any, force_scalar: bool = False
     ) -> Union[np.float_, np.ndarray]:
-        if np.isscalar(value):
+        if np.isscalar(value) or (force_scalar and np.ndim(value) == 0):
             if not isinstance(value, np.float_):
                 try:
                     value = _utils.as_numpy_scalar(value, dtype=np.float_)
-- 
2.43.0


From 3b749aae18012337e43c95e24aa23521d199810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 17/80] fix: indexing, reshaping and transposing of random
 variables acts on the value axes and the covariance

---
 src/probnum/randvars/_random_variable.py | 46 ++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index a3b4f28..0fed972 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -524,10 +524,15 @@ class RandomVariable(Generic[ValueType]):
         return quantile
 
     def __getitem__(self, key: ArrayIndicesLike) -> "RandomVariable":
+        def _sample(rng, size):
+            sample = self.sample(rng, size)
+            batch_key = (slice(None),) * (sample.ndim - self.ndim)
+            return sample[batch_key + (key if isinstance(key, tuple) else (key,))]
+
         return RandomVariable(
             shape=np.empty(shape=self.shape)[key].shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size)[key],
+            sample=_sample,
             mode=lambda: self.mode[key],
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
@@ -545,7 +550,7 @@ class RandomVariable(Generic[ValueType]):
             New shape for the random variable. It must be compatible with the original
             shape.
         """
-        newshape = _utils.as_shape(newshape)
+        newshape = np.empty(shape=self.shape).reshape(newshape).shape
 
         return RandomVariable(
             shape=newshape,
@@ -554,7 +559,11 @@ class RandomVariable(Generic[ValueType]):
             mode=lambda: self.mode.reshape(newshape),
             median=lambda: self.median.reshape(newshape),
             mean=lambda: self.mean.reshape(newshape),
-            cov=lambda: self.cov,
+            cov=lambda: self.cov.reshape(
+                (self.size, self.size) if len(newshape) > 0 else ()
+            )
+            if 0 in (self.ndim, len(newshape))
+            else self.cov,
             var=lambda: self.var.reshape(newshape),
             std=lambda: self.std.reshape(newshape),
             entropy=lambda: self.entropy,
@@ -569,21 +578,46 @@ class RandomVariable(Generic[ValueType]):
         axes :
             See documentation of :meth:`numpy.ndarray.transpose`.
         """
+
+        def _sample(rng, size):
+            sample = self.sample(rng, size)
+            batch_ndim = sample.ndim - self.ndim
+            permutation = np.arange(self.ndim)
+
+            if len(axes) == 0 or axes[0] is None:
+                permutation = permutation[::-1]
+            else:
+                permutation = permutation[np.array(axes, dtype=int).ravel()]
+
+            return sample.transpose(
+                tuple(range(batch_ndim)) + tuple(batch_ndim + permutation)
+            )
+
+        def _cov():
+            if self.ndim < 2:
+                return self.cov
+
+            idcs = np.arange(self.size).reshape(self.shape).transpose(*axes).ravel()
+            return self.cov[np.ix_(idcs, idcs)]
+
         return RandomVariable(
             shape=np.empty(shape=self.shape).transpose(*axes).shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size).transpose(*axes),
+            sample=_sample,
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-            cov=lambda: self.cov,
+            cov=_cov,
             var=lambda: self.var.transpose(*axes),
             std=lambda: self.std.transpose(*axes),
             entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
-    T = property(transpose)
+    @property
+    def T(self) -> "RandomVariable":
+        """Transposed random variable."""
+        return self.transpose()
 
     # Unary arithmetic operations
 
-- 
2.43.0


From 4665a939e02f5c2c9f70892e45c29e201b68c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 18/80] fix: moments and quantiles of single-precision normal
 random variables

---
 src/probnum/randvars/_normal.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cdc428a..c7bac95 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -122,8 +122,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             logcdf = self._univariate_logcdf
             quantile = self._univariate_quantile
 
-            median = lambda: mean
-            var = lambda: cov
+            median = lambda: self.mean
+            var = lambda: self.cov
             entropy = self._univariate_entropy
 
             compute_cov_cholesky = self._univariate_cov_cholesky
@@ -214,6 +214,9 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
                 f"{cov.__class__.__name__}."
             )
 
+        # Moments are (at least) double precision, see `RandomVariable.moment_dtype`
+        moment_dtype = Normal.infer_moment_dtype(dtype)
+
         super().__init__(
             shape=mean.shape,
             dtype=mean.dtype,
@@ -227,8 +230,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             quantile=quantile,
             mode=lambda: mean,
             median=median,
-            mean=lambda: mean,
-            cov=lambda: cov,
+            mean=lambda: mean.astype(moment_dtype, copy=False),
+            cov=lambda: cov.astype(moment_dtype, copy=False),
             var=var,
             entropy=entropy,
         )
@@ -445,7 +448,9 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         return scipy.stats.norm.logcdf(x, loc=self.mean, scale=self.std)
 
     def _univariate_quantile(self, p: FloatLike) -> np.floating:
-        return scipy.stats.norm.ppf(p, loc=self.mean, scale=self.std)
+        return scipy.stats.norm.ppf(p, loc=self.mean, scale=self.std).astype(
+            self.dtype, copy=False
+        )
 
     def _univariate_entropy(self: ValueType) -> np.float_:
         return _utils.as_numpy_scalar(
-- 
2.43.0


From bc199f3bf743ea4dd7a26f4aab9a122c0198bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 19/80] fix: marginals, reshapes and transposes of normal
 random variables

---
 src/probnum/randvars/_normal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index c7bac95..50dcbf6 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -312,11 +312,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean = self.dense_mean[key]
 
         # Select submatrix from covariance matrix
-        cov = self.dense_cov.reshape(self.shape + self.shape)
-        cov = cov[key][(...,) + key]
+        idcs = np.arange(self.size).reshape(self.shape)[key].ravel()
+        cov = self.dense_cov.reshape(self.size, self.size)[np.ix_(idcs, idcs)]
 
-        if mean.ndim > 0:
-            cov = cov.reshape(mean.size, mean.size)
+        if mean.ndim == 0:
+            cov = cov.reshape(())
 
         return Normal(
             mean=mean,
@@ -336,6 +336,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
 
         if reshaped_mean.ndim > 0 and reshaped_cov.ndim == 0:
             reshaped_cov = reshaped_cov.reshape(1, 1)
+        elif reshaped_mean.ndim == 0:
+            reshaped_cov = reshaped_cov.reshape(())
 
         return Normal(
             mean=reshaped_mean,
@@ -349,6 +351,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             axes = tuple(reversed(range(self.ndim)))
 
         mean_t = self.dense_mean.transpose(*axes).copy()
+        axes = tuple(axis % mean_t.ndim for axis in axes)
 
         # Transpose covariance
         cov_axes = axes + tuple(mean_t.ndim + axis for axis in axes)
-- 
2.43.0


From efb6295049c4c8810e0fbddf8415af41e3d011e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 20/80] fix: sample shapes of normal random variables

---
 src/probnum/randvars/_normal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 50dcbf6..8b819a8 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -492,7 +492,10 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             random_state=rng,
         )
 
-        return sample.reshape(sample.shape[:-1] + self.shape)
+
+        # `scipy` drops all axes of length one, including those of the random variable
+        # itself. (A sample of size one is not stacked.)
+        return sample.reshape((size if size != (1,) else ()) + self.shape)
 
     @staticmethod
     def _arg_todense(x: Union[np.ndarray, linops.LinearOperator]) -> np.ndarray:
@@ -600,7 +603,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         n = self.mean.shape[1]
 
         # Draw standard normal samples
-        size_sample = (n * n,) + size
+        size_sample = (n * n, int(np.prod(size)))
 
         stdnormal_samples = scipy.stats.norm.rvs(size=size_sample, random_state=rng)
 
@@ -608,4 +611,4 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         samples_scaled = linops.Symmetrize(n) @ (self.cov_cholesky @ stdnormal_samples)
 
         # TODO: can we avoid todense here and just return operator samples?
-        return self.dense_mean[None, :, :] + samples_scaled.T.reshape(-1, n, n)
+        return self.dense_mean + samples_scaled.T.reshape(size + (n, n))
-- 
2.43.0


From a318aa2aa75faa65190b84e5f8417d754bc36510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:23 +0000
Subject: [PATCH 21/80] fix: normal random variables with operator covariance
 and precomputed Cholesky factor

---
 src/probnum/randvars/_normal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 8b819a8..a02cf3f 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -149,7 +149,9 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             # shape, dtype.
             if cov_cholesky is not None:
 
-                if not isinstance(cov_cholesky, type(cov)):
+                if not isinstance(
+                    cov_cholesky, linops.LinearOperator if cov_operator else np.ndarray
+                ):
                     raise TypeError(
                         f"The covariance matrix is of type `{type(cov)}`, so its "
                         f"Cholesky decomposition must be of the same type, but an "
@@ -185,6 +187,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
                         compute_cov_cholesky = (
                             self._symmetric_kronecker_identical_factors_cov_cholesky
                         )
+                    else:
+                        compute_cov_cholesky = self._dense_cov_cholesky_as_linop
                 elif isinstance(cov, linops.Kronecker):
                     compute_cov_cholesky = self._kronecker_cov_cholesky
                     if mean.ndim == 2:
@@ -305,9 +309,6 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             while marginalizing over all other entries.
         """
 
-        if not isinstance(key, tuple):
-            key = (key,)
-
         # Select entries from mean
         mean = self.dense_mean[key]
 
@@ -376,7 +377,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
 
     def __pos__(self) -> "Normal":
         return Normal(
-            mean=+self.mean,
+            mean=self.mean,
             cov=self.cov,
         )
 
-- 
2.43.0


From f5ccaacd9facc90bf5eca9b9f87de828c1371b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:31 +0000
Subject: [PATCH 22/80] fix: operators of different classes must not compare
 equal

---
 src/probnum/linops/_linear_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 050f7d2..19a57a1 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1138,7 +1138,7 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
     def _is_type_shape_dtype_equal(self, other: "LinearOperator") -> bool:
         return (
-            isinstance(self, type(other))
+            type(self) is type(other)
             and self.shape == other.shape
             and self.dtype == other.dtype
         )
-- 
2.43.0


From eced7750ce05186824d271a587011c29d506cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:31 +0000
Subject: [PATCH 23/80] fix: samples of arithmetic expressions of random
 variables broadcast per sample

---
 src/probnum/randvars/_arithmetic.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 534bf4c..81f0516 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -125,10 +125,26 @@ def _default_rv_binary_op_factory(op_fn) -> _RandomVariableBinaryOperator:
 
 
 def _make_rv_binary_op_result_shape_dtype_sample_fn(op_fn, rv1, rv2):
-    sample_fn = lambda rng, size: op_fn(
-        rv1.sample(rng, size=size),
-        rv2.sample(rng, size=size),
-    )
+    def sample_fn(rng, size):
+        sample1 = rv1.sample(rng, size=size)
+        sample2 = rv2.sample(rng, size=size)
+
+        if size == ():
+            return op_fn(sample1, sample2)
+
+        if rv1.ndim == rv2.ndim and (op_fn is not operator.matmul or rv1.ndim == 2):
+            return op_fn(sample1, sample2)
+
+        # The axes of the values must be broadcast separately for each sample
+        return np.stack(
+            [
+                op_fn(x1, x2)
+                for x1, x2 in zip(
+                    np.reshape(sample1, (-1,) + rv1.shape),
+                    np.reshape(sample2, (-1,) + rv2.shape),
+                )
+            ]
+        ).reshape(size + shape)
 
     # Infer shape and dtype
     infer_sample = sample_fn(np.random.default_rng(1), ())
-- 
2.43.0


From b2589fb35ee8616b92e477435b1c4bbda7e7bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:48 +0000
Subject: [PATCH 24/80] fix: covariance functions of integer and
 mixed-precision inputs

---
 .../randprocs/covfuncs/_covariance_function.py        | 11 ++++++++---
 .../randprocs/covfuncs/_covariance_linear_operator.py | 10 ++++++++--
 src/probnum/randprocs/covfuncs/_white_noise.py        |  1 +
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 77898ec..0882e34 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -769,12 +769,13 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
             return np.zeros_like(  # pylint: disable=unexpected-keyword-arg
                 x0,
                 shape=x0.shape[: x0.ndim - self.input_ndim],
+                dtype=np.result_type(x0.dtype, np.single),
             )
 
         sqdiffs = x0 - x1
 
         if scale_factors is not None:
-            sqdiffs *= scale_factors
+            sqdiffs = sqdiffs * scale_factors
 
         sqdiffs *= sqdiffs
 
@@ -795,6 +796,7 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
             return np.zeros_like(  # pylint: disable=unexpected-keyword-arg
                 x0,
                 shape=x0.shape[: x0.ndim - self.input_ndim],
+                dtype=np.result_type(x0.dtype, np.single),
             )
 
         return np.sqrt(
@@ -822,10 +824,13 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         if len(x1.shape) < 2:
             x1 = x1.reshape(-1, 1)
 
-        sqdiffs = Vi(x0) - Vj(x1)
+        # KeOps requires all operands to have the same floating point type
+        dtype = np.result_type(x0.dtype, x1.dtype, np.single)
+
+        sqdiffs = Vi(x0.astype(dtype, copy=False)) - Vj(x1.astype(dtype, copy=False))
 
         if scale_factors is not None:
-            sqdiffs *= Pm(scale_factors)
+            sqdiffs *= Pm(np.asarray(scale_factors, dtype=dtype)[()])
 
         sqdiffs *= sqdiffs
 
diff --git a/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py b/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
index 6d00de2..7737be7 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
@@ -61,7 +61,10 @@ class CovarianceLinearOperator(linops.LinearOperator):
         self._evaluate_dense_matrix = evaluate_dense_matrix
         self._keops_lazy_tensor = keops_lazy_tensor
         self._use_keops = _USE_KEOPS and self._keops_lazy_tensor is not None
-        dtype = np.promote_types(x0.dtype, x1.dtype) if x1 is not None else x0.dtype
+        # Covariances are floating point numbers, even if the inputs are integers
+        dtype = np.result_type(
+            x0.dtype, x0.dtype if x1 is None else x1.dtype, np.single
+        )
         super().__init__(shape, dtype)
 
     @property
@@ -77,7 +80,10 @@ class CovarianceLinearOperator(linops.LinearOperator):
 
     def _matmul(self, x: np.ndarray) -> np.ndarray:
         if self._use_keops:
-            return self.keops_lazy_tensor @ x
+            # KeOps requires all operands to have the same floating point type
+            return (
+                self.keops_lazy_tensor @ x.astype(self.dtype, copy=False)
+            ).astype(np.result_type(self.dtype, x.dtype), copy=False)
         return self.todense() @ x
 
     def _transpose(self) -> linops.LinearOperator:
diff --git a/src/probnum/randprocs/covfuncs/_white_noise.py b/src/probnum/randprocs/covfuncs/_white_noise.py
index ae5377c..ac16f86 100644
--- a/src/probnum/randprocs/covfuncs/_white_noise.py
+++ b/src/probnum/randprocs/covfuncs/_white_noise.py
@@ -41,6 +41,7 @@ class WhiteNoise(CovarianceFunction):
                 x0,
                 self.sigma_sq,
                 shape=x0.shape[: x0.ndim - self.input_ndim],
+                dtype=np.result_type(x0.dtype, self.sigma_sq.dtype),
             )
 
         if self.input_shape == ():
-- 
2.43.0


From b559a1a886adfd40e0cee39f9b32a50c6d79319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 25/80] fix: covariance order of multi-output Gaussian
 processes and evaluation at a single point

---
 src/probnum/randprocs/_gaussian_process.py | 15 +++++++++++----
 src/probnum/randprocs/_random_process.py   |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randprocs/_gaussian_process.py b/src/probnum/randprocs/_gaussian_process.py
index aea560d..762c8c0 100644
--- a/src/probnum/randprocs/_gaussian_process.py
+++ b/src/probnum/randprocs/_gaussian_process.py
@@ -73,7 +73,14 @@ class GaussianProcess(_random_process.RandomProcess[ArrayLike, np.ndarray]):
         )
 
     def __call__(self, args: ArrayLike) -> randvars.Normal:
-        return randvars.Normal(
-            mean=np.array(self.mean(args), copy=False),  # pylint: disable=not-callable
-            cov=self.cov.matrix(args),
-        )
+        mean = np.array(self.mean(args), copy=False)  # pylint: disable=not-callable
+        cov = self.cov.matrix(args)
+
+        if self.output_ndim == 1:
+            # The covariance matrix is ordered by (output, point), but the entries of
+            # the mean are ordered by (point, output).
+            (num_outputs,) = self.output_shape
+            cov = cov.reshape((num_outputs, -1, num_outputs, mean.size // num_outputs))
+            cov = cov.transpose((1, 0, 3, 2)).reshape((mean.size, mean.size))
+
+        return randvars.Normal(mean=mean, cov=cov if mean.ndim > 0 else cov.item())
diff --git a/src/probnum/randprocs/_random_process.py b/src/probnum/randprocs/_random_process.py
index 3086137..d11fd6b 100644
--- a/src/probnum/randprocs/_random_process.py
+++ b/src/probnum/randprocs/_random_process.py
@@ -238,6 +238,7 @@ class RandomProcess(Generic[InputType, OutputType], abc.ABC):
             *shape=* ``batch_shape +`` :attr:`output_shape` -- Variance of the process
             at ``args``.
         """
+        args = np.asarray(args)
         pointwise_covs = self.cov(args, None)  # pylint: disable=not-callable
 
         assert (
-- 
2.43.0


From b03ec8a83fbcaf958d24bd20ce82e46b78c5ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 26/80] fix: adding the zero function checks shapes

---
 src/probnum/functions/_algebra.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/probnum/functions/_algebra.py b/src/probnum/functions/_algebra.py
index 4b757e8..7d0c873 100644
--- a/src/probnum/functions/_algebra.py
+++ b/src/probnum/functions/_algebra.py
@@ -20,7 +20,9 @@ def _(self, other: SumFunction) -> SumFunction:
 
 
 @Function.__add__.register  # pylint: disable=no-member
-def _(self, other: Zero) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Zero) -> Function:
+    SumFunction(self, other)  # raises an error if the shapes do not match
+
     return self
 
 
@@ -30,7 +32,9 @@ def _(self, other: Function) -> SumFunction:
 
 
 @Function.__sub__.register  # pylint: disable=no-member
-def _(self, other: Zero) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Zero) -> Function:
+    SumFunction(self, other)  # raises an error if the shapes do not match
+
     return self
 
 
@@ -60,10 +64,14 @@ def _(self, other: Function) -> SumFunction:
 
 
 @Zero.__add__.register  # pylint: disable=no-member
-def _(self, other: Function) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Function) -> Function:
+    SumFunction(self, other)  # raises an error if the shapes do not match
+
     return other
 
 
 @Zero.__sub__.register  # pylint: disable=no-member
-def _(self, other: Function) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Function) -> Function:
+    SumFunction(self, other)  # raises an error if the shapes do not match
+
     return -other
-- 
2.43.0


From 3efffc45e91aa2b76ba5da713359e6b2ea32921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 27/80] fix: gain and forwarded variable in backward passes of
 preconditioned integrators

---
 src/probnum/randprocs/markov/integrator/_ioup.py   | 6 +++++-
 src/probnum/randprocs/markov/integrator/_iwp.py    | 6 +++++-
 src/probnum/randprocs/markov/integrator/_matern.py | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/integrator/_ioup.py b/src/probnum/randprocs/markov/integrator/_ioup.py
index e024c35..3183be0 100644
--- a/src/probnum/randprocs/markov/integrator/_ioup.py
+++ b/src/probnum/randprocs/markov/integrator/_ioup.py
@@ -225,7 +225,7 @@ class IntegratedOrnsteinUhlenbeckTransition(
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt)
             if gain is not None
             else None
         )
@@ -255,4 +255,8 @@ class IntegratedOrnsteinUhlenbeckTransition(
 
         # Undo preconditioning and return
         rv = _preconditioner.apply_precon(self.precon(dt), rv)
+        if info.get("rv_forwarded") is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
         return rv, info
diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index b62c6ac..bac5366 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -263,7 +263,7 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt)
             if gain is not None
             else None
         )
@@ -276,6 +276,10 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             t=t,
             _diffusion=_diffusion,
         )
+        if info.get("rv_forwarded") is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
 
         return _preconditioner.apply_precon(self.precon(dt), rv), info
 
diff --git a/src/probnum/randprocs/markov/integrator/_matern.py b/src/probnum/randprocs/markov/integrator/_matern.py
index e8db12d..f347fc1 100644
--- a/src/probnum/randprocs/markov/integrator/_matern.py
+++ b/src/probnum/randprocs/markov/integrator/_matern.py
@@ -228,7 +228,7 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt)
             if gain is not None
             else None
         )
@@ -258,4 +258,8 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
 
         # Undo preconditioning and return
         rv = _preconditioner.apply_precon(self.precon(dt), rv)
+        if info.get("rv_forwarded") is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
         return rv, info
-- 
2.43.0


From a3dc2200de71569182602215450d6f12e06277ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 28/80] fix: force vector of discretised linear time-invariant
 SDEs

---
 src/probnum/randprocs/markov/continuous/_lti_sde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_lti_sde.py b/src/probnum/randprocs/markov/continuous/_lti_sde.py
index c90f325..5d951fe 100644
--- a/src/probnum/randprocs/markov/continuous/_lti_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_lti_sde.py
@@ -158,7 +158,9 @@ class LTISDE(_linear_sde.LinearSDE):
                 drift_matrix, dispersion_matrix, dt
             )
             proj = np.eye(self.state_dimension, 2 * self.state_dimension)
-            proj_rev = np.flip(proj, axis=1)
+            proj_rev = np.eye(
+                self.state_dimension, 2 * self.state_dimension, k=self.state_dimension
+            )
             ah = proj @ ah_stack @ proj.T
             sh = proj @ ah_stack @ proj_rev.T @ self.force_vector
             qh = proj @ qh_stack @ proj.T
-- 
2.43.0


From a07ee5fc6f272473b488a5e4c8f947232d821a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 29/80] fix: square-root moment equations of linear SDEs

---
 src/probnum/randprocs/markov/continuous/_linear_sde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_linear_sde.py b/src/probnum/randprocs/markov/continuous/_linear_sde.py
index 2e7f611..9924a92 100644
--- a/src/probnum/randprocs/markov/continuous/_linear_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_linear_sde.py
@@ -9,7 +9,6 @@ import scipy.linalg
 from probnum import randvars
 from probnum.randprocs.markov.continuous import _sde
 from probnum.typing import FloatLike, IntLike
-from probnum.utils.linalg import tril_to_positive_tril
 
 
 class LinearSDE(_sde.SDE):
@@ -394,8 +393,10 @@ class LinearSDE(_sde.SDE):
             )
             M = G_bar + G_bar.T + L_bar @ L_bar.T
 
-            new_cov_cholesky = tril_to_positive_tril(
-                cov_cholesky @ (np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M)))
+            # This is the derivative of the Cholesky factor, whose diagonal may be
+            # negative.
+            new_cov_cholesky = cov_cholesky @ (
+                np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M))
             )
 
             # Vectorize outcome
-- 
2.43.0


From ae0cf19cb9e57228787b384dee2e9b3d75ff3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 30/80] fix: diffusion of realizations of nonlinear Gaussian
 transitions

---
 .../randprocs/markov/discrete/_nonlinear_gaussian.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
index c92cf05..3c9b07a 100644
--- a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
+++ b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
@@ -66,8 +66,10 @@ class NonlinearGaussian(_transition.Transition):
         self, realization, t, compute_gain=False, _diffusion=1.0, **kwargs
     ):
         fun_eval = self.transition_fun(t, realization)
-        noise = _diffusion * self.noise_fun(t)
-        return fun_eval + noise, {}
+        noise = self.noise_fun(t)
+        # The diffusion scales the covariance of the noise, not its mean.
+        scaled_noise = noise.mean + np.sqrt(_diffusion) * (noise - noise.mean)
+        return fun_eval + scaled_noise, {}
 
     def forward_rv(self, rv, t, compute_gain=False, _diffusion=1.0, **kwargs):
         raise NotImplementedError("Not available")
-- 
2.43.0


From 17eb57cd6dbf2bf69506e3240a0785731a0734ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 31/80] fix: Cholesky updates with tall square-roots

---
 src/probnum/utils/linalg/_cholesky_updates.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/probnum/utils/linalg/_cholesky_updates.py b/src/probnum/utils/linalg/_cholesky_updates.py
index cdca28c..e6b81a2 100644
--- a/src/probnum/utils/linalg/_cholesky_updates.py
+++ b/src/probnum/utils/linalg/_cholesky_updates.py
@@ -67,13 +67,11 @@ def cholesky_update(
     else:
         stacked_up = np.vstack(S1.T)
     upper_sqrtm = np.linalg.qr(stacked_up, mode="r")
-    if S1.ndim == 1:
-        lower_sqrtm = upper_sqrtm.T
-    elif S1.shape[0] <= S1.shape[1]:
-        lower_sqrtm = upper_sqrtm.T
-    else:
-        lower_sqrtm = np.zeros((S1.shape[0], S1.shape[0]))
-        lower_sqrtm[:, : -(S1.shape[0] - S1.shape[1])] = upper_sqrtm.T
+    lower_sqrtm = upper_sqrtm.T
+    if lower_sqrtm.shape[1] < lower_sqrtm.shape[0]:
+        # Not enough columns for a square factor, the remaining ones are zero.
+        num_missing = lower_sqrtm.shape[0] - lower_sqrtm.shape[1]
+        lower_sqrtm = np.pad(lower_sqrtm, ((0, 0), (0, num_missing)))
 
     return tril_to_positive_tril(lower_sqrtm)
 
-- 
2.43.0


From fe4bdd3149c9b7f5ec194e5fae59417ab192f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:13 +0000
Subject: [PATCH 32/80] fix: joint samples of Markov processes

The second location reused the draw of the first one, multi-dimensional sizes
were not supported and locations that do not start at the initial argument
were sampled from the initial distribution.
---
 src/probnum/randprocs/markov/_markov.py     | 34 +++++++++++----------
 src/probnum/randprocs/markov/_transition.py |  3 +-
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 7939edd..13c99ef 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -58,31 +58,33 @@ class _MarkovBase(_random_process.RandomProcess):
         if args.ndim > 1:
             raise ValueError(f"Invalid args shape {args.shape}")
 
+        # The law of the process is only known at the initial argument, from which
+        # the state has to be propagated to the requested locations.
+        initarg = np.reshape(self.initarg, (1,))
+        starts_at_initarg = np.array_equal(args[:1], initarg)
+        locations = args if starts_at_initarg else np.concatenate((initarg, args))
+
         base_measure_realizations = scipy.stats.norm.rvs(
-            size=(size + args.shape + self.initrv.shape), random_state=rng
+            size=(size + locations.shape + self.initrv.shape), random_state=rng
         )
 
-        if size == ():
-            return np.array(
-                self.transition.jointly_transform_base_measure_realization_list_forward(
-                    base_measure_realizations=base_measure_realizations,
-                    t=args,
-                    initrv=self.initrv,
-                    _diffusion_list=np.ones_like(args[:-1]),
-                )
-            )
-
-        return np.stack(
+        samples = np.array(
             [
                 self.transition.jointly_transform_base_measure_realization_list_forward(
                     base_measure_realizations=base_real,
-                    t=args,
+                    t=locations,
                     initrv=self.initrv,
-                    _diffusion_list=np.ones_like(args[:-1]),
+                    _diffusion_list=np.ones_like(locations[:-1]),
+                )
+                for base_real in base_measure_realizations.reshape(
+                    (-1,) + locations.shape + self.initrv.shape
                 )
-                for base_real in base_measure_realizations
             ]
-        )
+        ).reshape(size + locations.shape + self.initrv.shape)
+
+        if starts_at_initarg:
+            return samples
+        return samples[..., 1:, :]
 
     class Kernel(kernels.Kernel):
         def __init__(
diff --git a/src/probnum/randprocs/markov/_transition.py b/src/probnum/randprocs/markov/_transition.py
index 25c94f0..124ea29 100644
--- a/src/probnum/randprocs/markov/_transition.py
+++ b/src/probnum/randprocs/markov/_transition.py
@@ -470,8 +470,7 @@ class Transition(abc.ABC):
             )
             curr_sample = (
                 curr_rv.mean
-                + curr_rv.cov_cholesky
-                @ base_measure_realizations[idx - 1].reshape((-1,))
+                + curr_rv.cov_cholesky @ base_measure_realizations[idx].reshape((-1,))
             )
             out_samples.append(curr_sample)
         return out_samples
-- 
2.43.0


From aa1d3f1a8213562e46487062208f4a3240355510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 33/80] fix: time arguments of the Kalman filter

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 45869e4..c0fdeed 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -271,7 +271,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                     None if _previous_posterior is None else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
-                    curr_rv, t, dt=dt, _linearise_at=linearise_predict_at
+                    curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
                 )
                 curr_rv, info_dict["predict_info"] = output
 
@@ -280,7 +280,10 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                 None if _previous_posterior is None else _previous_posterior(t)
             )
             curr_rv, info_dict["update_info"] = measmod.backward_realization(
-                realization_obtained=data, rv=curr_rv, _linearise_at=linearise_update_at
+                realization_obtained=data,
+                rv=curr_rv,
+                t=t,
+                _linearise_at=linearise_update_at,
             )
 
             yield t, curr_rv, info_dict
-- 
2.43.0


From b473fc3e1ec0726ecba6b0ce10d00ee405f097e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 34/80] fix: iterated smoothing linearises dynamics at the
 previous posterior

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index c0fdeed..cfe066b 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -170,7 +170,9 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             _previous_posterior=_previous_posterior,
         )
         filter_posterior, info_dicts = filter_result
-        smooth_posterior = self.smooth(filter_posterior)
+        smooth_posterior = self.smooth(
+            filter_posterior, _previous_posterior=_previous_posterior
+        )
         return smooth_posterior, info_dicts
 
     def filter(
@@ -311,6 +313,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             filter_posterior.states,
             filter_posterior.locations,
             _diffusion_list=diffusion_list,
+            _previous_posterior=_previous_posterior,
         )
 
         return _kalmanposterior.SmoothingPosterior(
-- 
2.43.0


From 770cfc15ca84c8dc49aaf1c2e2e00105ca986dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 35/80] fix: interpolation of smoothing posteriors counts data
 once

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 79eddf7..8a6d31b 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -236,7 +236,9 @@ class SmoothingPosterior(KalmanPosterior):
             return extrapolated_rv_right
 
         # Final case: we are interpolating. Both locations are not None.
-        # In this case, filter from the the left to the middle point;
+        # In this case, filter from the the left to the middle point
+        # (starting at the filtering state -- the smoothing state has seen
+        # the data on the right already, and this data must not be used twice);
         # And compute a smoothing update from the middle to the RHS point.
         if np.abs(previous_index - next_index) > 1.1:
             raise ValueError
@@ -245,7 +247,7 @@ class SmoothingPosterior(KalmanPosterior):
         assert dt_left > 0.0
         assert dt_right > 0.0
         filtered_rv, _ = self.transition.forward_rv(
-            rv=previous_state,
+            rv=self.filtering_posterior.states[previous_index],
             t=previous_location,
             dt=dt_left,
             _diffusion=squared_diffusion,
-- 
2.43.0


From 5119b5e92cb88cd97a419edd756efea7f0a505cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 36/80] fix: association of diffusions and intervals

---
 .../filtsmooth/gaussian/_kalmanposterior.py      | 16 ++++++++--------
 .../randprocs/markov/continuous/_diffusions.py   |  5 ++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 8a6d31b..778b8c2 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -196,12 +196,10 @@ class SmoothingPosterior(KalmanPosterior):
         # This block avoids calling self.diffusion_model, because we do not want
         # to search the full index set -- we already know the index!
         # This is the reason that `Diffusion` objects implement a __getitem__.
-        # The usual diffusion-index is the next index
-        # ('Diffusion's include the right-hand side gridpoint!),
-        # but if we are right of the domain, the previous_index matters.
-        diffusion_index = next_index if next_index is not None else previous_index
-        if diffusion_index >= len(self.locations) - 1:
-            diffusion_index = -1
+        # The nth diffusion belongs to the interval between the nth and the (n+1)th
+        # location, therefore the diffusion-index is the previous index.
+        # If we are right of the domain, this is the final diffusion.
+        diffusion_index = previous_index if next_index is not None else -1
         if self.diffusion_model_has_been_provided:
             squared_diffusion = self.diffusion_model[diffusion_index]
         else:
@@ -300,8 +298,10 @@ class SmoothingPosterior(KalmanPosterior):
 
         # Find locations of the diffusions, which amounts to finding the locations
         # of the grid points in t (think: `all_locations`),
-        # which is done via np.searchsorted:
-        diffusion_indices = np.searchsorted(self.locations[:-2], t[1:])
+        # which is done via np.searchsorted. The nth diffusion belongs to the interval
+        # between the nth and the (n+1)th location; the final one is used everywhere
+        # on the right of the domain.
+        diffusion_indices = np.searchsorted(self.locations[1:-1], t[:-1], side="right")
         if self.diffusion_model_has_been_provided:
             squared_diffusion_list = self.diffusion_model[diffusion_indices]
         else:
diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 43d33cf..e24ca45 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -141,9 +141,8 @@ class PiecewiseConstantDiffusion(Diffusion):
 
         # The "-1" in here makes up for the fact that the locations contains one more
         # element than the diffusions.
-        indices = np.searchsorted(self.locations, t) - 1
-        indices[t < self.t0] = 0
-        indices[t > self.tmax] = -1
+        indices = np.searchsorted(self.locations, t, side="right") - 1
+        indices = np.clip(indices, 0, len(self._diffusions) - 1)
 
         if t_has_been_promoted:
             indices = indices[0]
-- 
2.43.0


From 5584d0efd71c06aaed03557ff0a12ddd52d83896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 37/80] fix: running mean of constant diffusions

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index e24ca45..a0d4dd3 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -87,7 +87,7 @@ class ConstantDiffusion(Diffusion):
         if self.diffusion is None:
             self.diffusion = local_estimate
         else:
-            a = 1 / self._seen_diffusions
+            a = 1 / (self._seen_diffusions + 1)
             b = 1 - a
             self.diffusion = a * local_estimate + b * self.diffusion
         self._seen_diffusions += 1
-- 
2.43.0


From bdecc8c288eaed81610fd08d773a4c558f014940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 38/80] fix: locations in dense output and samples of
 posteriors

---
 src/probnum/filtsmooth/_timeseriesposterior.py      | 3 ++-
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/_timeseriesposterior.py b/src/probnum/filtsmooth/_timeseriesposterior.py
index 11bf1ce..0e9b1fa 100644
--- a/src/probnum/filtsmooth/_timeseriesposterior.py
+++ b/src/probnum/filtsmooth/_timeseriesposterior.py
@@ -118,7 +118,8 @@ class TimeSeriesPosterior(abc.ABC):
         # (which is there for a well-behaved loop).
         # If this has been the case, the final result needs to be
         # reshaped ("squeezed") accordingly.
-        if np.isscalar(t):
+        t = np.asarray(t)
+        if t.ndim == 0:
             t = np.atleast_1d(t)
             t_has_been_promoted = True
         else:
diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 778b8c2..14e66a4 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -87,7 +87,7 @@ class KalmanPosterior(_timeseriesposterior.TimeSeriesPosterior, abc.ABC):
         # Compute the union (as sets) of t and self.locations
         # This allows that samples "always pass" the grid points.
         all_locations = np.union1d(t, self.locations)
-        slice_these_out = np.where(np.isin(all_locations, t))[0]
+        slice_these_out = np.searchsorted(all_locations, t)
         base_measure_realizations = stats.norm.rvs(
             size=(size + all_locations.shape + single_rv_shape),
             random_state=rng,
-- 
2.43.0


From eaeb51e84e4cb332aa3b7df9e8d2c14d9522a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 39/80] fix: relative tolerance for negative references in
 iterated filters

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index 491e630..def0167 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -33,6 +33,6 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
 
     def evaluate_error(self, error, reference):
         """Compute the normalised error."""
-        normalisation = self.atol + self.rtol * reference
+        normalisation = self.atol + self.rtol * np.abs(reference)
         magnitude = np.sqrt(np.mean((error / normalisation) ** 2))
         return magnitude
-- 
2.43.0


From 93a7fb239ca427ca321f8e8bec4e320b1a7ad062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 40/80] fix: dimension of UKF components

---
 src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py b/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
index 92a2a60..6b26dd9 100644
--- a/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
+++ b/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
@@ -39,7 +39,7 @@ class DiscreteUKFComponent(
     @property
     def dimension(self) -> int:
         """Dimension of the state-space associated with the UKF."""
-        return self.ut.dimension
+        return self.input_dim
 
     def linearize(
         self, t, at_this_rv: randvars.RandomVariable
-- 
2.43.0


From 795c04adb6a5832a0ce7fc7ea5ef9abb14409387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:53 +0000
Subject: [PATCH 41/80] fix: merge regression problems made of sequences or
 with repeated locations

---
 .../utils/_merge_regression_problems.py       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/probnum/filtsmooth/utils/_merge_regression_problems.py b/src/probnum/filtsmooth/utils/_merge_regression_problems.py
index ce5dfc8..b01e696 100644
--- a/src/probnum/filtsmooth/utils/_merge_regression_problems.py
+++ b/src/probnum/filtsmooth/utils/_merge_regression_problems.py
@@ -91,23 +91,27 @@ def merge_regression_problems(
     measurement_models2 = np.asarray(regression_problem2.measurement_models)
 
     # Some shorthand improves readibility of the inserts below.
+    # (Regression problems consist of either sequences or arrays.)
     locs1, data1, sol1 = (
-        regression_problem1.locations,
-        regression_problem1.observations,
+        np.asarray(regression_problem1.locations),
+        np.asarray(regression_problem1.observations),
         regression_problem1.solution,
     )
     locs2, data2, sol2 = (
-        regression_problem2.locations,
-        regression_problem2.observations,
+        np.asarray(regression_problem2.locations),
+        np.asarray(regression_problem2.observations),
         regression_problem2.solution,
     )
 
     # Merge time locations
     if np.any(np.in1d(locs1, locs2)):
         raise ValueError("Regression problems must not share time locations.")
-    new_locs = np.sort(np.concatenate((locs1, locs2)))
-    locs1_in_new_locs = np.searchsorted(new_locs, locs1)
-    locs2_in_new_locs = np.searchsorted(new_locs, locs2)
+    new_locs = np.concatenate((locs1, locs2))
+    ordering = np.argsort(new_locs, kind="stable")
+    new_locs = new_locs[ordering]
+    positions = np.argsort(ordering)
+    locs1_in_new_locs = positions[: len(locs1)]
+    locs2_in_new_locs = positions[len(locs1) :]
 
     # Merge observations
     new_num_obs = len(data1) + len(data2)
@@ -121,6 +125,7 @@ def merge_regression_problems(
     # Merge solutions.
     # The resulting problem will only have a solution of BOTH problems have one.
     if sol1 is not None and sol2 is not None:
+        sol1, sol2 = np.asarray(sol1), np.asarray(sol2)
         if not sol1.shape[1:] == sol2.shape[1:]:
             raise ValueError("The solution arrays have incompatible dimension.")
         new_sol_shape = (new_num_obs,) + sol1.shape[1:]
-- 
2.43.0


From f116ccc732ec4f5288bf5e2eb08ba0e7c29db3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:16 +0000
Subject: [PATCH 42/80] fix: continue particle filters with the resampled
 particles

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c57ea6e..4509de3 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -216,6 +216,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                 N = effective_number_of_events(new_rv)
                 if N < self.min_effective_num_of_particles:
                     new_rv = new_rv.resample(rng=self.rng)
+                    particles, weights = new_rv.support, new_rv.probabilities
             yield new_rv, {}
             t_old = t
 
-- 
2.43.0


From 7b058caebe41712e243214f227e9cb02b7be8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:16 +0000
Subject: [PATCH 43/80] fix: weights of bootstrap particle filters accumulate

---
 src/probnum/filtsmooth/particle/_importance_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 954f82d..ff8fcf3 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -65,7 +65,8 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
     def log_correction_factor(
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
-        return 0.0
+        # The dynamics are the importance distribution, i.e. their ratio is one.
+        return np.log(old_weight + 1e-14)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
-- 
2.43.0


From b669277386789d225a84074e197448eac85505a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:56 +0000
Subject: [PATCH 44/80] fix: keep the draws of increments in samples of Markov
 processes

---
 src/probnum/randprocs/markov/_markov.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 13c99ef..a8d6601 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -68,6 +68,11 @@ class _MarkovBase(_random_process.RandomProcess):
             size=(size + locations.shape + self.initrv.shape), random_state=rng
         )
 
+        # The first draws belong to the increments, the final one to the initial value.
+        base_measure_realizations = np.roll(
+            base_measure_realizations, shift=1, axis=len(size)
+        )
+
         samples = np.array(
             [
                 self.transition.jointly_transform_base_measure_realization_list_forward(
-- 
2.43.0


From 32a048db096babe39ceb51ea0f07a505e460a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:19 +0000
Subject: [PATCH 45/80] fix: particle filters with a single particle

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index 4509de3..c622309 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -172,7 +172,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
         else:
             particles = self.prior_process.initrv.sample(
                 rng=self.rng, size=(self.num_particles,)
-            )
+            ).reshape(particle_set_shape)
 
         for t, data, measmod in regression_problem:
 
-- 
2.43.0


From 88a59d659572c7fb2c6cb4005918e9496358c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:19 +0000
Subject: [PATCH 46/80] fix: normalise the weights of particle filters in
 log-space

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c622309..777a351 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -178,7 +178,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
 
             dt = t - t_old
             new_particles = particles.copy()
-            new_weights = weights.copy()
+            new_log_weights = np.zeros_like(weights)
 
             # Capture the inputs in a variable for more compact code layout
             inputs = measmod, particles, weights, data, t_old, dt, t
@@ -203,11 +203,13 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                         old_weight=w,
                     )
                 )
-                new_weight = np.exp(loglikelihood + log_correction_factor)
+                new_log_weight = loglikelihood + log_correction_factor
 
                 new_particles[idx] = new_particle
-                new_weights[idx] = new_weight
+                new_log_weights[idx] = new_log_weight
 
+            # Normalise in log-space: the likelihoods of all particles may underflow.
+            new_weights = np.exp(new_log_weights - np.amax(new_log_weights))
             weights = new_weights / np.sum(new_weights)
             particles = new_particles
             new_rv = randvars.Categorical(support=particles, probabilities=weights)
-- 
2.43.0


From 0d709038dd189a097d995f2bc07f0084e1613b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 47/80] fix: limit the first step of ODE solvers to the time
 domain

---
 src/probnum/diffeq/_odesolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index aa512b9..6f5c142 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -73,7 +73,7 @@ class ODESolver(ABC):
         state = self.initialize(ivp)
         yield state
 
-        dt = self.steprule.firststep
+        dt = min(self.steprule.firststep, state.ivp.tmax - state.t)
 
         # Use state.ivp in case a callback modifies the IVP
         while state.t < state.ivp.tmax:
-- 
2.43.0


From 74525b8c6145b26028c4ceca65f64e42d19fac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 48/80] fix: stop ODE solvers at every requested location

---
 src/probnum/diffeq/_odesolver.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 6f5c142..7b0ce9e 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -101,7 +101,7 @@ class ODESolver(ABC):
         if stop_at_locations is not None:
             loc_iter = iter(stop_at_locations)
             time_stopper = _TimeStopperState(
-                locations=loc_iter, next_location=next(loc_iter)
+                locations=loc_iter, next_location=next(loc_iter, np.inf)
             )
         else:
             time_stopper = None
@@ -180,13 +180,9 @@ class _TimeStopperState:
 
 
 def _adjust_time_step(stopper_state, t, dt):
-    if t >= stopper_state.next_location:
-        try:
-            next_location = next(stopper_state.locations)
-        except StopIteration:
-            next_location = np.inf
-    else:
-        next_location = stopper_state.next_location
+    next_location = stopper_state.next_location
+    while t >= next_location:
+        next_location = next(stopper_state.locations, np.inf)
 
     if t + dt > next_location:
         dt = next_location - t
-- 
2.43.0


From 603bb58ae1eff0f6ed7b1912b4ef2abe73c20369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 49/80] fix: apply ODE solver callbacks given as one-shot
 iterables in every step

---
 src/probnum/diffeq/_odesolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 7b0ce9e..96b6612 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -94,7 +94,7 @@ class ODESolver(ABC):
         """Process callbacks and time-stamps into a format suitable for solve()."""
 
         def promote_callback_type(cbs):
-            return cbs if isinstance(cbs, abc.Iterable) else [cbs]
+            return list(cbs) if isinstance(cbs, abc.Iterable) else [cbs]
 
         if callbacks is not None:
             callbacks = promote_callback_type(callbacks)
-- 
2.43.0


From a12b925b14202bf4ea11986de3ca7c735f243d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 50/80] fix: relative tolerances for negative states

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 5276de2..3b89b03 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -146,7 +146,7 @@ class AdaptiveSteps(StepRule):
         return scaled_error < 1
 
     def errorest_to_norm(self, errorest: ArrayLike, reference_state: np.ndarray):
-        tolerance = self.atol + self.rtol * reference_state
+        tolerance = self.atol + self.rtol * np.abs(reference_state)
         ratio = errorest / tolerance
         dim = len(ratio) if ratio.ndim > 0 else 1
         return np.linalg.norm(ratio) / np.sqrt(dim)
-- 
2.43.0


From 57c7a8ea40ac47917884fef011628de7b6ccd96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 51/80] fix: initial step proposals for vanishing initial
 values and derivatives

---
 src/probnum/diffeq/stepsize/_propose_firststep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/probnum/diffeq/stepsize/_propose_firststep.py b/src/probnum/diffeq/stepsize/_propose_firststep.py
index 8b5f8b5..b3c04a9 100644
--- a/src/probnum/diffeq/stepsize/_propose_firststep.py
+++ b/src/probnum/diffeq/stepsize/_propose_firststep.py
@@ -11,4 +11,8 @@ def propose_firststep(ivp):
     """
     norm_y0 = np.linalg.norm(ivp.y0)
     norm_dy0 = np.linalg.norm(ivp.f(ivp.t0, ivp.y0))
+    # The ratio carries no information if one of the norms vanishes. In this case,
+    # use a small default step.
+    if norm_y0 == 0.0 or norm_dy0 == 0.0:
+        return 1e-6
     return 0.01 * norm_y0 / norm_dy0
-- 
2.43.0


From 3c4261ad9064d605fdb02af49a7849b0ef5e3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 52/80] fix: Runge-Kutta steps after rejected steps

---
 .../perturbed/scipy_wrapper/_wrapped_scipy_solver.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
index 6f2dd88..6ef14f6 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
@@ -82,6 +82,14 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
             New state.
         """
 
+        # The stored derivative belongs to the most recent attempt. It must not be used
+        # if that attempt has been rejected (or if the state has been replaced).
+        is_first_attempt = self.solver.y_old is None
+        if not is_first_attempt and (
+            state.t != self.solver.t or not np.array_equal(state.rv.mean, self.solver.y)
+        ):
+            self.solver.f = self.solver.fun(state.t, state.rv.mean)
+
         y_new, f_new = rk.rk_step(
             self.solver.fun,
             state.t,
-- 
2.43.0


From 554cebfaf5e616aa71ce4edcb59417b6abdae860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 53/80] fix: step scales of perturbed solvers with rejected
 steps

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
index 3818686..fb97443 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
@@ -60,6 +60,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         self.perturb_step = perturb_step
         self.solver = solver
         self.scales = None
+        self._attempted_scale = None
         super().__init__(steprule=solver.steprule, order=solver.order)
 
     @classmethod
@@ -117,8 +118,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         """
         noisy_step = self.perturb_step(self.rng, dt)
         new_state = self.solver.attempt_step(state, noisy_step)
-        scale = noisy_step / dt
-        self.scales.append(scale)
+        self._attempted_scale = noisy_step / dt
 
         t_new = state.t + dt
         state = _odesolver_state.ODESolverState(
@@ -132,6 +132,8 @@ class PerturbedStepSolver(_odesolver.ODESolver):
 
     def method_callback(self, state):
         """Call dense output after each step and store the interpolants."""
+        # Only the scales of accepted steps belong to the solution.
+        self.scales.append(self._attempted_scale)
         return self.solver.method_callback(state)
 
     def rvlist_to_odesol(self, times: np.ndarray, rvs: randvars._RandomVariableList):
-- 
2.43.0


From 72f5e25374e36369a2d37ad993fe4c06795c7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 54/80] fix: time stamps of the local diffusions of ODE filters

---
 src/probnum/diffeq/odefilter/_odefilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 986173d..5d6e44b 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -288,7 +288,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         # Now we can be certain that the step will be accepted. In this case
         # we update the diffusion model and continue the rest of the iteration.,
-        self.diffusion_model.update_in_place(local_diffusion, t=state.t)
+        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)
 
         if self._calibrate_at_each_step:
             # With the updated diffusion, we need to re-compute the covariances of the
@@ -388,7 +388,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         if self.with_smoothing is True:
 
-            squared_diffusion_list = self.diffusion_model(locations[1:])
+            squared_diffusion_list = self.diffusion_model(locations[:-1])
             rv_list = self.prior_process.transition.smooth_list(
                 rv_list, locations, _diffusion_list=squared_diffusion_list
             )
-- 
2.43.0


From 1a5a2340df77728dde5c2f0747291504420375a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 55/80] fix: pass the time to the update of ODE filters

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 5d6e44b..660621d 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -334,7 +334,7 @@ class ODEFilter(_odesolver.ODESolver):
         gain = scipy.linalg.cho_solve((meas_rv.cov_cholesky, True), crosscov.T).T
         zero_data = np.zeros(meas_rv.mean.shape)
         filt_rv, _ = self.measurement_model.backward_realization(
-            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain
+            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain, t=state.t + dt
         )
 
         t_new = state.t + dt
-- 
2.43.0


From 2efc2747c369fd85a3fc7a0e1d96a674f96eb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 56/80] fix: smooth the calibrated states of ODE filters

---
 src/probnum/diffeq/odefilter/_odefilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 660621d..02b771a 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -390,7 +390,9 @@ class ODEFilter(_odesolver.ODESolver):
 
             squared_diffusion_list = self.diffusion_model(locations[:-1])
             rv_list = self.prior_process.transition.smooth_list(
-                rv_list, locations, _diffusion_list=squared_diffusion_list
+                kalman_posterior.states,
+                locations,
+                _diffusion_list=squared_diffusion_list,
             )
             kalman_posterior = filtsmooth.gaussian.SmoothingPosterior(
                 filtering_posterior=kalman_posterior,
-- 
2.43.0


From edf63e2f5e3a305e499583fd4291ef09aa19db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 57/80] fix: centre the observation noise of ODE residuals

---
 src/probnum/diffeq/odefilter/utils/_problem_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/utils/_problem_utils.py b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
index a396b56..4e1f05d 100644
--- a/src/probnum/diffeq/odefilter/utils/_problem_utils.py
+++ b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
@@ -125,8 +125,13 @@ def _construct_measurement_models_gaussian_likelihood(
     )
     if approx_strategy is not None:
         ode_information_operator = approx_strategy(ode_information_operator)
+    ode_noise = randvars.Normal(
+        mean=np.zeros_like(shift_vector, dtype=float),
+        cov=diff,
+        cov_cholesky=diff_cholesky,
+    )
     measmod_ode = ode_information_operator.as_transition(
-        noise_fun=lambda t: noise,
+        noise_fun=lambda t: ode_noise,
     )
 
     return measmod_initial_condition, measmod_ode
-- 
2.43.0


From a35aba59e2cda4249088de6698d969a5e26c6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:36 +0000
Subject: [PATCH 58/80] fix: stacked initialisation with few derivatives

---
 src/probnum/diffeq/odefilter/init_routines/_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/odefilter/init_routines/_stack.py b/src/probnum/diffeq/odefilter/init_routines/_stack.py
index 2bb00dd..aae858f 100644
--- a/src/probnum/diffeq/odefilter/init_routines/_stack.py
+++ b/src/probnum/diffeq/odefilter/init_routines/_stack.py
@@ -48,7 +48,7 @@ class Stack(_StackBase):
         std = np.stack(
             [0.0 * ivp.y0, 0.0 * fy] + [self._scale_cholesky * np.ones(d)] * (n - 2)
         )
-        return mean, std
+        return mean[:n], std[:n]
 
 
 class StackWithJacobian(_StackBase):
@@ -65,4 +65,4 @@ class StackWithJacobian(_StackBase):
             [0.0 * ivp.y0, 0.0 * fy, 0.0 * dfy]
             + [self._scale_cholesky * np.ones(d)] * (n - 3)
         )
-        return mean, std
+        return mean[:n], std[:n]
-- 
2.43.0


From 764d104079be0f1085ed285f27337f50aa1b6a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:10 +0000
Subject: [PATCH 59/80] fix: shape of log-normal step perturbations

---
 .../diffeq/perturbed/step/_perturbation_functions.py     | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbation_functions.py b/src/probnum/diffeq/perturbed/step/_perturbation_functions.py
index fe0a7b4..e01fe4f 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbation_functions.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbation_functions.py
@@ -82,9 +82,8 @@ def perturb_lognormal(
     shift = 0.5 * np.log(1 + noise_scale * (step ** (2 * solver_order)))
     mean = np.log(step) - shift
     cov = 2 * shift
-    samples = np.exp(
-        scipy.stats.multivariate_normal.rvs(
-            mean=mean, cov=cov, size=size, random_state=rng
-        )
+    samples = scipy.stats.multivariate_normal.rvs(
+        mean=mean, cov=cov, size=size, random_state=rng
     )
-    return samples
+    # SciPy removes axes of length one from the samples.
+    return np.exp(np.reshape(samples, size))
-- 
2.43.0


From 6e41246e28955718fb49cd89e26e63e998b2fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:16 +0000
Subject: [PATCH 60/80] Revert "fix: Runge-Kutta steps after rejected steps"

This reverts commit 3c4261ad9064d605fdb02af49a7849b0ef5e3eaa.
---
 .../perturbed/scipy_wrapper/_wrapped_scipy_solver.py      | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
index 6ef14f6..6f2dd88 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
@@ -82,14 +82,6 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
             New state.
         """
 
-        # The stored derivative belongs to the most recent attempt. It must not be used
-        # if that attempt has been rejected (or if the state has been replaced).
-        is_first_attempt = self.solver.y_old is None
-        if not is_first_attempt and (
-            state.t != self.solver.t or not np.array_equal(state.rv.mean, self.solver.y)
-        ):
-            self.solver.f = self.solver.fun(state.t, state.rv.mean)
-
         y_new, f_new = rk.rk_step(
             self.solver.fun,
             state.t,
-- 
2.43.0


From bf70383b6ef0ab66728740bb9c20ce6ae02036b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 61/80] fix: relative mean change of vanishing integrals

---
 .../quad/solvers/stopping_criteria/_rel_mean_change.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
index 6e91448..6f3019e 100644
--- a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
+++ b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
@@ -36,10 +36,6 @@ class RelativeMeanChange(BQStoppingCriterion):
         if not bq_state.previous_integral_beliefs:
             # On the first iteration there is no previous integral value to use
             return False
-        return (
-            np.abs(
-                (integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean)
-                / integral_belief.mean
-            )
-            <= self.rel_tol
-        )
+        # Do not divide by the mean, which may be zero.
+        mean_change = integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean
+        return np.abs(mean_change) <= self.rel_tol * np.abs(integral_belief.mean)
-- 
2.43.0


From 60be0f90f5a6ab587e71cf045e139880ddf992de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:53 +0000
Subject: [PATCH 62/80] fix: acquisition policies of Bayesian quadrature

---
 src/probnum/quad/solvers/_bayesian_quadrature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/quad/solvers/_bayesian_quadrature.py b/src/probnum/quad/solvers/_bayesian_quadrature.py
index e9ea4ca..99b9299 100644
--- a/src/probnum/quad/solvers/_bayesian_quadrature.py
+++ b/src/probnum/quad/solvers/_bayesian_quadrature.py
@@ -212,9 +212,9 @@ class BayesianQuadrature:
 
         # Select policy
         acquisition_dict = dict(
-            mi=MutualInformation,
-            ivr=IntegralVarianceReduction,
-            us=WeightedPredictiveVariance,
+            mi=MutualInformation(),
+            ivr=IntegralVarianceReduction(),
+            us=WeightedPredictiveVariance(),
         )
         if policy is None:
             # If policy is None, this implies that the integration problem is defined
-- 
2.43.0


From 2315fec61081f30b06b67627c5c4ac78b5a59f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:07 +0000
Subject: [PATCH 63/80] fix: row norms in the random unit vector policy

---
 src/probnum/linalg/solvers/policies/_random_unit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/policies/_random_unit_vector.py b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
index f183c48..999b4bd 100644
--- a/src/probnum/linalg/solvers/policies/_random_unit_vector.py
+++ b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
@@ -5,6 +5,7 @@ from typing import Optional
 import numpy as np
 
 import probnum  # pylint: disable="unused-import"
+from probnum import linops
 
 from . import _linear_solver_policy
 
@@ -45,7 +46,8 @@ class RandomUnitVectorPolicy(_linear_solver_policy.LinearSolverPolicy):
             if self.probabilities == "uniform":
                 solver_state.cache["row_sample_probs"] = np.ones(nrows) / nrows
             elif self.probabilities == "rownorm":
-                sampling_probs = (solver_state.problem.A**2).T @ np.ones(shape=nrows)
+                A = linops.aslinop(solver_state.problem.A).todense()
+                sampling_probs = np.sum(np.abs(A) ** 2, axis=1)
                 solver_state.cache["row_sample_probs"] = (
                     sampling_probs / sampling_probs.sum()
                 )
-- 
2.43.0


From e6e0fa0a1f02dffb9f730b76eaa18f53988e84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:49 +0000
Subject: [PATCH 64/80] fix: action reorthogonalization for sparse system
 matrices

---
 src/probnum/linalg/solvers/policies/_conjugate_gradient.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
index 4896a31..d72dd8a 100644
--- a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
+++ b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
@@ -107,11 +107,8 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
     ) -> np.ndarray:
         """Reorthogonalize the computed action."""
         if isinstance(solver_state.prior.x, randvars.Normal):
-            inprod_matrix = (
-                solver_state.problem.A
-                @ solver_state.prior.x.cov
-                @ solver_state.problem.A.T
-            )
+            A = linops.aslinop(solver_state.problem.A)
+            inprod_matrix = A @ solver_state.prior.x.cov @ A.T
         elif isinstance(solver_state.prior.x, randvars.Constant):
             inprod_matrix = solver_state.problem.A
 
-- 
2.43.0


From 8a0bda9c11fbc2fb056c44d76006a855459a98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:38 +0000
Subject: [PATCH 65/80] fix: posterior covariances of problinsolve after one
 iteration

---
 src/probnum/linalg/solvers/matrixbased.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index cbc5f36..d95294e 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -447,7 +447,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
                 )
             else:
                 _trace = self.Ainv_covfactor0.trace()
-        if self.is_calib_covclass:
+        if self.is_calib_covclass and k > 0:
             # Additive term from uncertainty calibration
             _trace += unc_scale * (self.n - k)
         return _trace
@@ -656,7 +656,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         """Return output random variables x, A, Ainv from their means and
         covariances."""
 
-        if self.iter_ > 0:
+        if len(Y_list) > 0:
             # Observations and inner products in A-space between actions
             Y = np.hstack(Y_list)
             sy = np.vstack(sy_list).ravel()
-- 
2.43.0


From 01da4104b157027bd7a74f0230d46cc036f3d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 66/80] fix: problinsolve with a matrix as approximate inverse

---
 src/probnum/linalg/solvers/matrixbased.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index d95294e..e99ee7d 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -333,6 +333,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
                 Ainv0_covfactor = Ainv0.cov.A
             else:
                 self.is_calib_covclass = True
+                Ainv0 = linops.aslinop(Ainv0)
                 Ainv0_mean = Ainv0
                 Ainv0_covfactor = Ainv0  # Symmetric posterior correspondence
             try:
@@ -370,7 +371,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
                 A0_covfactor = A0  # Symmetric posterior correspondence
             try:
                 if Ainv0 is not None:
-                    Ainv0_mean = Ainv0
+                    Ainv0_mean = linops.aslinop(Ainv0)
                 elif isinstance(A0, randvars.RandomVariable):
                     Ainv0_mean = A0.mean.inv()
                 else:
-- 
2.43.0


From 3002a0f1e365e20cc9c5a6f523dd6efdb54418fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 67/80] fix: initial guesses in problinsolve for zero and
 multiple right-hand sides

---
 src/probnum/linalg/_problinsolve.py       | 2 ++
 src/probnum/linalg/solvers/matrixbased.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linalg/_problinsolve.py b/src/probnum/linalg/_problinsolve.py
index 134caae..0fa5596 100644
--- a/src/probnum/linalg/_problinsolve.py
+++ b/src/probnum/linalg/_problinsolve.py
@@ -198,6 +198,8 @@ def problinsolve(
         for i in range(nrhs):
             if i > 0:
                 x = None  # Only use prior information on Ainv for multiple rhs
+            elif x is not None:
+                x = x[:, :1]
             # Select and initialize solver
             linear_solver = _init_solver(
                 A=A,
diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index e99ee7d..9470378 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -94,7 +94,7 @@ class MatrixBasedSolver(abc.ABC):
         elif bx0 == 0:
             if np.all(b == np.zeros_like(b)):
                 print("Right-hand-side is zero. Initializing with solution x0 = 0.")
-                x0 = b
+                return linops.Identity(self.n), linops.Identity(self.n)
             else:
                 print("Better initialization found, setting x0 = (b'b/b'Ab) * b.")
                 bAb = np.squeeze(b.T @ (A @ b))
@@ -254,8 +254,10 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         self.Ainv_mean0 = Ainv_mean0
         self.Ainv_covfactor = Ainv_covfactor0
         self.Ainv_covfactor0 = Ainv_covfactor0
-        if isinstance(x0, np.ndarray):
+        if isinstance(x0, np.ndarray) and np.any(self.b):
             self.x_mean = x0
+        elif isinstance(x0, np.ndarray):
+            self.x_mean = np.zeros_like(self.b)
         elif x0 is None:
             self.x_mean = Ainv_mean0 @ self.b
         else:
-- 
2.43.0


From b237b5065abdbf802b6488516f43a1c8b8247e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:08 +0000
Subject: [PATCH 68/80] fix: shape of the solution of problinsolve

---
 src/probnum/linalg/_problinsolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/linalg/_problinsolve.py b/src/probnum/linalg/_problinsolve.py
index 0fa5596..89db9fa 100644
--- a/src/probnum/linalg/_problinsolve.py
+++ b/src/probnum/linalg/_problinsolve.py
@@ -180,6 +180,7 @@ def problinsolve(
         )
 
     # Transform the linear system to an appropriate form
+    b_shape = b.shape
     A, b, x0 = _preprocess_linear_system(A=A, b=b, x0=x0)
 
     # Parameter initialization
@@ -227,6 +228,7 @@ def problinsolve(
         x, A0, Ainv0, info = linear_solver.solve(
             maxiter=maxiter, atol=atol, rtol=rtol, callback=callback, **kwargs
         )
+        x = x.reshape(b_shape)
 
     # Check result and issue warnings (e.g. singular or ill-conditioned matrix)
     _postprocess(info=info, A=A)
-- 
2.43.0


From acd1746f1979b5572f5feea907ca74c4b0268748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:02 +0000
Subject: [PATCH 69/80] fix: configuration contexts with unregistered options

---
 src/probnum/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/_config.py b/src/probnum/_config.py
index 098ab9f..1618074 100644
--- a/src/probnum/_config.py
+++ b/src/probnum/_config.py
@@ -75,10 +75,11 @@ class Configuration:
         """Context manager used to set values of registered config options."""
         old_options = {}
 
-        for key, value in kwargs.items():
+        for key in kwargs:
             if key not in self._options_registry:
                 raise AttributeError(Configuration._NON_REGISTERED_KEY_ERR_MSG % key)
 
+        for key, value in kwargs.items():
             old_options[key] = self._options_registry[key].value
 
             self._options_registry[key].value = value
-- 
2.43.0


From dc192d007339a6abf0788cc12cf5bd5e4e7b790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:02 +0000
Subject: [PATCH 70/80] fix: solution of the logistic ODE for other initial
 times

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index 922ee7b..aa60d51 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -251,8 +251,8 @@ def logistic(t0=0.0, tmax=2.0, y0=None, params=(3.0, 1.0)):
 
     def sol(t):
         l0, l1 = params
-        nomin = l1 * y0 * np.exp(l0 * t)
-        denom = l1 + y0 * (np.exp(l0 * t) - 1)
+        nomin = l1 * y0 * np.exp(l0 * (t - t0))
+        denom = l1 + y0 * (np.exp(l0 * (t - t0)) - 1)
         return nomin / denom
 
     return InitialValueProblem(
-- 
2.43.0


From bdced585cc5e10a23789d437ae904a4ba4c7b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:02 +0000
Subject: [PATCH 71/80] fix: moments in the sum of polynomials problem

---
 src/probnum/problems/zoo/quad/_quadproblems_gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index bf85339..fbd1667 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -218,7 +218,8 @@ def sum_polynomials(
     # Return function values as a 2d array with one column.
     delta = (np.remainder(b, 2) - 1) ** 2
     doublefact = special.factorial2(b - 1)
-    solution = np.sum(np.prod(a * delta * (var**b) * doublefact, axis=1))
+    var_diag = np.diag(var) if np.ndim(var) == 2 else var
+    solution = np.sum(np.prod(a * delta * (var_diag ** (b / 2)) * doublefact, axis=1))
     if isinstance(var, float):
         mean = 0.0
     else:
-- 
2.43.0


From 116b12842cf80f515c3b7554b066c842bcf89231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:02 +0000
Subject: [PATCH 72/80] fix: default initial distribution of the logistic ODE
 problem

---
 src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 3d0dbdf..38803f3 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -594,8 +594,8 @@ def logistic_ode(
 
     # Generate prior process
     if initrv is None:
-        initmean = np.array([0.1, 0, 0.0, 0.0])
-        initcov = np.diag([0.0, 1.0, 1.0, 1.0])
+        initmean = np.append(y0, np.zeros(order))
+        initcov = np.diag(np.append(0.0, np.ones(order)))
         initrv = randvars.Normal(initmean, initcov)
     dynamics_model = randprocs.markov.integrator.IntegratedWienerTransition(
         num_derivatives=order,
-- 
2.43.0


From 297ccfd819137f1aa80e88d31f5ae55eaba1fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:02 +0000
Subject: [PATCH 73/80] fix: column vectors of random variables

---
 src/probnum/utils/arrayutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/utils/arrayutils.py b/src/probnum/utils/arrayutils.py
index 279de4d..05b4e36 100644
--- a/src/probnum/utils/arrayutils.py
+++ b/src/probnum/utils/arrayutils.py
@@ -61,7 +61,7 @@ def as_colvec(
     """
     if isinstance(vec, probnum.randvars.RandomVariable):
         if vec.shape != (vec.shape[0], 1):
-            vec.reshape(newshape=(vec.shape[0], 1))
+            vec = vec.reshape(newshape=(vec.shape[0], 1))
     elif vec.ndim == 1:
         return vec[:, None]
     return vec
-- 
2.43.0


From 9f2f7790c514a2d4ca852761c690e810c69e3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:30 +0000
Subject: [PATCH 74/80] fix: constant factors and integer variances in the sum
 of polynomials problem

---
 src/probnum/problems/zoo/quad/_quadproblems_gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index fbd1667..0fe7689 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -217,10 +217,10 @@ def sum_polynomials(
 
     # Return function values as a 2d array with one column.
     delta = (np.remainder(b, 2) - 1) ** 2
-    doublefact = special.factorial2(b - 1)
+    doublefact = special.factorial2(np.maximum(b - 1, 0))
     var_diag = np.diag(var) if np.ndim(var) == 2 else var
     solution = np.sum(np.prod(a * delta * (var_diag ** (b / 2)) * doublefact, axis=1))
-    if isinstance(var, float):
+    if np.ndim(var) == 0:
         mean = 0.0
     else:
         mean = np.zeros(dim)
-- 
2.43.0


From b80e854c369437496705c8854c449ce8db9b2515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:30 +0000
Subject: [PATCH 75/80] fix: integer parameter of the van der Pol problem

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index aa60d51..623904b 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -125,7 +125,7 @@ def vanderpol(t0=0.0, tmax=30, y0=None, params=1e1):
 
     def rhs(t, y, params=params):
         y1, y2 = y
-        if isinstance(params, float):
+        if np.ndim(params) == 0:
             mu = params
         else:
             (mu,) = params
@@ -134,7 +134,7 @@ def vanderpol(t0=0.0, tmax=30, y0=None, params=1e1):
 
     def jac(t, y, params=params):
         y1, y2 = y
-        if isinstance(params, float):
+        if np.ndim(params) == 0:
             mu = params
         else:
             (mu,) = params
-- 
2.43.0


From 6cd20247ca44a8ff2f7aec47ae54615fbbc0c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:30 +0000
Subject: [PATCH 76/80] fix: statistics of random variable lists after changes
 of the list

---
 src/probnum/randvars/_randomvariablelist.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/probnum/randvars/_randomvariablelist.py b/src/probnum/randvars/_randomvariablelist.py
index 21cbf65..2f3dafe 100644
--- a/src/probnum/randvars/_randomvariablelist.py
+++ b/src/probnum/randvars/_randomvariablelist.py
@@ -1,6 +1,5 @@
 """List of random variables."""
 
-from functools import cached_property
 from typing import Union
 
 import numpy as np
@@ -40,25 +39,25 @@ class _RandomVariableList(list):
             result = _RandomVariableList(result)
         return result
 
-    @cached_property
+    @property
     def mean(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.mean for rv in self])
 
-    @cached_property
+    @property
     def cov(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.cov for rv in self])
 
-    @cached_property
+    @property
     def var(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.var for rv in self])
 
-    @cached_property
+    @property
     def std(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
@@ -69,7 +68,7 @@ class _RandomVariableList(list):
         first_rv = np.asarray(self[0].mean)
         return (len(self),) + first_rv.shape
 
-    @cached_property
+    @property
     def mode(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
@@ -77,13 +76,13 @@ class _RandomVariableList(list):
 
     # For discrete random variables:
 
-    @cached_property
+    @property
     def support(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
         return np.stack([rv.support for rv in self])
 
-    @cached_property
+    @property
     def probabilities(self) -> np.ndarray:
         if len(self) == 0:
             return np.array([])
-- 
2.43.0


From 6fa04a1215cd9d1dce75359e2cc93e63d6dfd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:34 +0000
Subject: [PATCH 77/80] fix: scalar mean with vector standard deviation in the
 Gaussian transform

---
 .../problems/zoo/quad/_quadproblems_gaussian.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index 0fe7689..9364e32 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -116,12 +116,12 @@ def uniform_to_gaussian_quadprob(
 
     dim = lower_bd.shape[0]
 
-    cov = std**2
-    if isinstance(std, np.ndarray):
-        cov = np.eye(dim) * cov
-    gaussian_measure = GaussianMeasure(mean=mean, cov=cov, input_dim=dim)
+    fun = uniform_to_gaussian_integrand(fun=quadprob.fun, mean=mean, std=std)
+    gaussian_measure = GaussianMeasure(
+        mean=np.broadcast_to(mean, (dim,)), cov=np.eye(dim) * std**2, input_dim=dim
+    )
     return QuadratureProblem(
-        fun=uniform_to_gaussian_integrand(fun=quadprob.fun, mean=mean, std=std),
+        fun=fun,
         measure=gaussian_measure,
         solution=quadprob.solution,
     )
-- 
2.43.0


From fce046b036f2fca5bb72e52b79c20cb8a0e6fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:07 +0000
Subject: [PATCH 78/80] fix: covariance matrices of functions with different
 input shapes

---
 src/probnum/randprocs/covfuncs/_covariance_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 0882e34..dc2cc72 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -686,11 +686,11 @@ class CovarianceFunction(abc.ABC):
         ):
             raise ValueError(
                 f"The shape of `x{argnum}` must must match `input_shape_{argnum}`, "
-                f"i.e. `{self.input_shape}`, of the covariance function along its "
+                f"i.e. `{input_shape}`, of the covariance function along its "
                 f"trailing dimensions, but an array with shape `{x.shape}` was given."
             )
 
-        return x.reshape((-1,) + self.input_shape, order="C")
+        return x.reshape((-1,) + input_shape, order="C")
 
     def _euclidean_inner_products(
         self, x0: np.ndarray, x1: Optional[np.ndarray]
-- 
2.43.0


From bcdf47fc251a3b3aaf4e115c03a9e3497b3d0aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:11 +0000
Subject: [PATCH 79/80] fix: arithmetic of covariance functions with different
 input shapes

---
 .../randprocs/covfuncs/_arithmetic_fallbacks.py   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_arithmetic_fallbacks.py b/src/probnum/randprocs/covfuncs/_arithmetic_fallbacks.py
index 9869097..d8e376d 100644
--- a/src/probnum/randprocs/covfuncs/_arithmetic_fallbacks.py
+++ b/src/probnum/randprocs/covfuncs/_arithmetic_fallbacks.py
@@ -47,7 +47,8 @@ class ScaledCovarianceFunction(CovarianceFunction):
         self._scalar = utils.as_numpy_scalar(scalar)
 
         super().__init__(
-            input_shape=covfunc.input_shape,
+            input_shape_0=covfunc.input_shape_0,
+            input_shape_1=covfunc.input_shape_1,
             output_shape_0=covfunc.output_shape_0,
             output_shape_1=covfunc.output_shape_1,
         )
@@ -83,7 +84,8 @@ class SumCovarianceFunction(CovarianceFunction):
 
     def __init__(self, *summands: CovarianceFunction):
         if not all(
-            (summand.input_shape == summands[0].input_shape)
+            (summand.input_shape_0 == summands[0].input_shape_0)
+            and (summand.input_shape_1 == summands[0].input_shape_1)
             and (summand.output_shape_0 == summands[0].output_shape_0)
             and (summand.output_shape_1 == summands[0].output_shape_1)
             for summand in summands
@@ -93,7 +95,8 @@ class SumCovarianceFunction(CovarianceFunction):
         self._summands = SumCovarianceFunction._expand_sum_covfuncs(*summands)
 
         super().__init__(
-            input_shape=summands[0].input_shape,
+            input_shape_0=summands[0].input_shape_0,
+            input_shape_1=summands[0].input_shape_1,
             output_shape_0=summands[0].output_shape_0,
             output_shape_1=summands[0].output_shape_1,
         )
@@ -151,7 +154,8 @@ class ProductCovarianceFunction(CovarianceFunction):
 
     def __init__(self, *factors: CovarianceFunction):
         if not all(
-            (factor.input_shape == factors[0].input_shape)
+            (factor.input_shape_0 == factors[0].input_shape_0)
+            and (factor.input_shape_1 == factors[0].input_shape_1)
             and (factor.output_shape_0 == factors[0].output_shape_0)
             and (factor.output_shape_1 == factors[0].output_shape_1)
             for factor in factors
@@ -161,7 +165,8 @@ class ProductCovarianceFunction(CovarianceFunction):
         self._factors = ProductCovarianceFunction._expand_prod_covfuncs(*factors)
 
         super().__init__(
-            input_shape=factors[0].input_shape,
+            input_shape_0=factors[0].input_shape_0,
+            input_shape_1=factors[0].input_shape_1,
             output_shape_0=factors[0].output_shape_0,
             output_shape_1=factors[0].output_shape_1,
         )
-- 
2.43.0


From c0ae42fc380da03a9303e7956df8e230a888ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:25 +0000
Subject: [PATCH 80/80] fix: pass the instance on when broadcasting matvec
 methods

---
 src/probnum/linops/_vectorize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linops/_vectorize.py b/src/probnum/linops/_vectorize.py
index bdf88e8..4425019 100644
--- a/src/probnum/linops/_vectorize.py
+++ b/src/probnum/linops/_vectorize.py
@@ -76,11 +76,12 @@ def vectorize_matvec(
         @functools.wraps(matvec)
         def vectorized_matvec(*args) -> np.ndarray:
             x = args[1 if method else 0]
+            fn = functools.partial(matvec, args[0]) if method else matvec
 
             if x.ndim == 2 and x.shape[1] == 1:
-                return matvec(x[:, 0])[:, np.newaxis]
+                return fn(x[:, 0])[:, np.newaxis]
 
-            return np.apply_along_axis(matvec, -2, x)
+            return np.apply_along_axis(fn, -2, x)
 
         return vectorized_matvec
 
-- 
2.43.0

