From 42cf5bbf04372edc6a2b875f20a9a03f1682fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 01/56] fix: map the reference pyramid onto the cell with
 straight edges and flat faces

---
 symfem/references.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 7716b5f..d77b0be 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -2214,9 +2214,11 @@ class Pyramid(Reference):
         """
         assert self.vertices == self.reference_vertices
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + x[0] * (v1 - v0)
+            + x[1] * (v2 - v0)
+            + x[2] * (v4 - v0)
+            + (v0 + v3 - v1 - v2) * x[0] * x[1] / (1 - x[2])
             for v0, v1, v2, v3, v4 in zip(*vertices)
         )
 
@@ -2250,9 +2252,11 @@ class Pyramid(Reference):
             The map
         """
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + x[0] * (v1 - v0)
+            + x[1] * (v2 - v0)
+            + x[2] * (v4 - v0)
+            + (v0 + v3 - v1 - v2) * x[0] * x[1] / (1 - x[2])
             for v0, v1, v2, v3, v4 in zip(*self.vertices)
         )
 
-- 
2.43.0


From 3f24e3d5161056d65da81165dcbf48d338d4cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 02/56] fix: choose the quadrilateral inverse map from the
 dimension of the target cell

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index d77b0be..cc62a75 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1550,9 +1550,9 @@ class Quadrilateral(Reference):
         v1 = _vsub(vertices[1], vertices[0])
         v2 = _vsub(vertices[2], vertices[0])
 
-        if len(self.vertices[0]) == 2:
+        if len(vertices[0]) == 2:
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-        elif len(self.vertices[0]) == 3:
+        elif len(vertices[0]) == 3:
             v3 = _vcross(v1, v2)
             mat = sympy.Matrix(
                 [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
-- 
2.43.0


From 1c4aa3ec7e3172b347c86ea3fd88b198feaaf63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 03/56] fix: invert the map to a triangle in three dimensions

---
 symfem/references.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index cc62a75..f608b35 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1179,16 +1179,17 @@ class Triangle(Reference):
         Returns:
             The map
         """
+        p = _vsub(tuple(x), self.vertices[0])
+        v1 = _vsub(self.vertices[1], self.vertices[0])
+        v2 = _vsub(self.vertices[2], self.vertices[0])
         if len(self.vertices[0]) == 2:
-            p = _vsub(tuple(x), self.vertices[0])
-            v1 = _vsub(self.vertices[1], self.vertices[0])
-            v2 = _vsub(self.vertices[2], self.vertices[0])
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-            return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
-
-        return tuple(
-            _vdot(_vsub(tuple(x), self.origin), a) * sympy.Integer(1) / _vnorm(a) for a in self.axes
-        )
+        else:
+            v3 = _vcross(v1, v2)
+            mat = sympy.Matrix(
+                [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
+            ).inv()
+        return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
     def volume(self) -> sympy.core.expr.Expr:
         """Calculate the volume.
-- 
2.43.0


From 345bf7596c07e6c154c41bd42faea52f7de5d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/56] fix: use the right sign for the third barycentric
 coordinate in Tetrahedron.contains

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index f608b35..c56c6ec 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1409,7 +1409,7 @@ class Tetrahedron(Reference):
             t0 = minv[0, 0] * po[0] + minv[0, 1] * po[1] + minv[0, 2] * po[2]
             t1 = minv[1, 0] * po[0] + minv[1, 1] * po[1] + minv[1, 2] * po[2]
             t2 = minv[2, 0] * po[0] + minv[2, 1] * po[1] + minv[2, 2] * po[2]
-            return 0 <= t0 and 0 <= t1 and 0 >= t2 and t0 + t1 + t2 <= 1
+            return 0 <= t0 and 0 <= t1 and 0 <= t2 and t0 + t1 + t2 <= 1
 
 
 class Quadrilateral(Reference):
-- 
2.43.0


From fdf12a8562c50b0aaadf50b97b51145ae48e44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 05/56] fix: limit Reference.on_edge to the edge, rather than
 the line through it

---
 symfem/references.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index c56c6ec..43e52cc 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -620,14 +620,12 @@ class Reference(ABC):
         Returns:
             Is the point on an edge?
         """
-        from symfem.functions import VectorFunction
-
-        point = VectorFunction(point_in)
+        point = parse_point_input(point_in)
         for e in self.edges:
-            v0 = VectorFunction(self.vertices[e[0]])
-            v1 = VectorFunction(self.vertices[e[1]])
-            crossed = (v0 - point).cross(v1 - point).norm()
-            if crossed == 0:
+            v0 = self.vertices[e[0]]
+            edge = _vsub(self.vertices[e[1]], v0)
+            pos = _vdot(_vsub(point, v0), edge) / _vdot(edge, edge)
+            if 0 <= pos <= 1 and all(p - i - pos * j == 0 for p, i, j in zip(point, v0, edge)):
                 return True
         return False
 
-- 
2.43.0


From 8d83c7992482abf665f66d8a8c063a64f6ff8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/56] fix: make Reference.on_face return True for points on a
 face

---
 symfem/references.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 43e52cc..5bf4f34 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -638,15 +638,22 @@ class Reference(ABC):
         Returns:
             Is the point on a face?
         """
-        from symfem.functions import VectorFunction
+        from symfem.geometry import point_in_triangle
 
-        point = VectorFunction(point_in)
+        point = parse_point_input(point_in)
         for f in self.faces:
-            v0 = VectorFunction(self.vertices[f[0]])
-            v1 = VectorFunction(self.vertices[f[1]])
-            v2 = VectorFunction(self.vertices[f[2]])
-            crossed = (v0 - point).cross(v1 - point)
-            if crossed.dot(v2 - point):
+            vs = [self.vertices[i] for i in f]
+            if len(vs) == 3:
+                triangles = [(vs[0], vs[1], vs[2])]
+            elif len(vs) == 4:
+                triangles = [(vs[0], vs[1], vs[2]), (vs[1], vs[3], vs[2])]
+            else:
+                raise NotImplementedError()
+            if self.gdim == 3:
+                normal = _vcross(_vsub(vs[1], vs[0]), _vsub(vs[2], vs[0]))
+                if _vdot(normal, _vsub(point, vs[0])) != 0:
+                    continue
+            if any(point_in_triangle(point, tri) for tri in triangles):
                 return True
         return False
 
-- 
2.43.0


From a81f4f1416c252f15857dda199058a2a5295d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 07/56] fix: let point_in_quadrilateral accept quadrilaterals
 of either orientation

---
 symfem/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index 8ad84ba..efa49b3 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -188,7 +188,9 @@ def point_in_quadrilateral(point: PointType, quad: SetOfPoints) -> bool:
     if isinstance(d3, sympy.Float) and _is_close(d3, 0):
         d3 = sympy.Integer(0)
 
-    return d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0
+    if d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0:
+        return True
+    return d0 <= 0 and d1 <= 0 and d2 <= 0 and d3 <= 0
 
 
 def point_in_tetrahedron(point: PointType, tetrahedron: SetOfPoints) -> bool:
-- 
2.43.0


From 26bcf654ca118b118921f0ebc5e5835611c16b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 08/56] fix: return the norm of a basis function instead of
 raising it

---
 symfem/basis_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 42859fe..3ef5eeb 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -290,7 +290,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The norm
         """
-        raise self.get_function().norm()
+        return self.get_function().norm()
 
     def integral(
         self,
-- 
2.43.0


From 0df18bf406bbca0025ee8ccae1555f374593e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 09/56] fix: allow arithmetic on two basis functions

---
 symfem/basis_functions.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 3ef5eeb..56ac37b 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -23,6 +23,20 @@ from symfem.symbols import AxisVariables, AxisVariablesNotSingle, t, x
 __all__ = ["BasisFunction", "SubbedBasisFunction"]
 
 
+def _unwrap(f: typing.Any) -> typing.Any:
+    """Get the actual function if the input is a basis function.
+
+    Args:
+        f: A function, number or list
+
+    Returns:
+        The function if the input is a basis function, otherwise the input itself
+    """
+    if isinstance(f, BasisFunction):
+        return f.get_function()
+    return f
+
+
 class BasisFunction(AnyFunction):
     """A basis function of a finite element.
 
@@ -58,7 +72,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__add__(other)
+        return self.get_function() + _unwrap(other)
 
     def __radd__(self, other: typing.Any) -> AnyFunction:
         """Add.
@@ -69,7 +83,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__radd__(other)
+        return _unwrap(other) + self.get_function()
 
     def __sub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -80,7 +94,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__sub__(other)
+        return self.get_function() - _unwrap(other)
 
     def __rsub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -91,7 +105,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__rsub__(other)
+        return _unwrap(other) - self.get_function()
 
     def __neg__(self) -> AnyFunction:
         """Negate.
@@ -110,7 +124,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__truediv__(other)
+        return self.get_function() / _unwrap(other)
 
     def __rtruediv__(self, other: typing.Any) -> AnyFunction:
         """Divide.
@@ -121,7 +135,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__rtruediv__(other)
+        return _unwrap(other) / self.get_function()
 
     def __mul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -132,7 +146,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__mul__(other)
+        return self.get_function() * _unwrap(other)
 
     def __rmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -143,7 +157,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__rmul__(other)
+        return _unwrap(other) * self.get_function()
 
     def __matmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -154,7 +168,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__matmul__(other)
+        return self.get_function() @ _unwrap(other)
 
     def __rmatmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -165,7 +179,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__rmatmul__(other)
+        return _unwrap(other) @ self.get_function()
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
         """Raise to a power.
@@ -176,7 +190,7 @@ class BasisFunction(AnyFunction):
         Returns:
             This function to the power of other
         """
-        return self.get_function().__pow__(other)
+        return self.get_function() ** _unwrap(other)
 
     def as_sympy(self) -> SympyFormat:
         """Convert to a sympy expression.
-- 
2.43.0


From bfe316cd0e8b73d6746f4500c4eb782f3a51551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 10/56] fix: multiply a vector by a non-square matrix over the
 right dimensions

---
 symfem/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 121c941..9494d52 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1062,8 +1062,8 @@ class VectorFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> VectorFunction:
         """Multiply."""
         if isinstance(other, MatrixFunction):
-            assert other.shape[1] == len(self)
-            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[0])])
+            assert other.shape[0] == len(self)
+            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[1])])
         return NotImplemented
 
     def __rmatmul__(self, other: typing.Any) -> VectorFunction:
-- 
2.43.0


From 523cd926081eef8d0cd32fc6a7b0d2edf16e99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 11/56] fix: include every column in the dot product of
 non-square matrices

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 9494d52..4568e86 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1693,7 +1693,7 @@ class MatrixFunction(AnyFunction):
             assert self.shape == other.shape
             out = ScalarFunction(0)
             for i in range(self.shape[0]):
-                for j in range(self.shape[0]):
+                for j in range(self.shape[1]):
                     out += self._mat[i][j] * other._mat[i][j]
             return out
 
-- 
2.43.0


From 50e070de1fc19f8faf4b55ce1b69438483d288af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 12/56] fix: allow nested iteration over the components of a
 vector function

---
 symfem/functions.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 4568e86..1f39985 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1268,16 +1268,7 @@ class VectorFunction(AnyFunction):
 
     def __iter__(self):
         """Get iterable."""
-        self.iter_n = 0
-        return self
-
-    def __next__(self):
-        """Get next item."""
-        if self.iter_n < len(self._vec):
-            self.iter_n += 1
-            return self._vec[self.iter_n - 1]
-        else:
-            raise StopIteration
+        return iter(self._vec)
 
     def plot_values(
         self,
-- 
2.43.0


From 616a92109af72ed2554b98a659135a65ece65617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 13/56] fix: substitute the integration variables
 simultaneously

---
 symfem/functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 1f39985..4dfaa9b 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -801,9 +801,7 @@ class ScalarFunction(AnyFunction):
         point = VectorFunction(domain.origin)
         for ti, a in zip(dummy_vars, domain.axes):
             point += ti * VectorFunction(a)
-        out = self._f * 1
-        for v, p in zip(vars, point):
-            out = out.subs(v, p)
+        out = self.subs(vars, point)._f
 
         if len(limits[0]) == 2:
             for i in limits:
-- 
2.43.0


From 78b780406384d3fc2a597e0e96924e5f1fb09cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 14/56] fix: return a function from integrals over points

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 4dfaa9b..4ac6cec 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -807,7 +807,7 @@ class ScalarFunction(AnyFunction):
             for i in limits:
                 assert len(i) == 2
                 out = out.subs(*i)
-            return out
+            return ScalarFunction(out)
 
         out *= domain.jacobian()
         return ScalarFunction(out.integrate(*limits))
-- 
2.43.0


From 9e32c6c5fd786cff45b656600264598af010ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 15/56] fix: compute the maximum degree of a function from its
 monomials

---
 symfem/functions.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 4ac6cec..1fe9748 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -911,20 +911,13 @@ class ScalarFunction(AnyFunction):
         """
         if cell.name == "pyramid":
             raise NotImplementedError()
-        degrees = []
-        for v in x:
-            f = 1 * self._f
-            d = 0
-            while f != 0:
-                d += 1
-                f = f.diff(v)
-            degrees.append(d - 1)
+        monomials = sympy.Poly(self._f, *x).monoms()
         if cell.name in ["interval", "triangle", "tetrahedron"]:
-            return sum(degrees)
+            return max(sum(m) for m in monomials)
         elif cell.name in ["quadrilateral", "hexahedron"]:
-            return max(degrees)
+            return max(max(m) for m in monomials)
         elif cell.name == "prism":
-            return max(degrees[0] + degrees[1], degrees[2])
+            return max(max(m[0] + m[1], m[2]) for m in monomials)
         else:
             raise ValueError(f"Unrecognised cell: {cell.name}")
 
-- 
2.43.0


From ab9dc229d399066c7c20dd6b9b34482e9a17d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 16/56] fix: compare piecewise functions on different pieces
 without failing

---
 symfem/piecewise_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 3d45b7c..e3455cc 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -172,9 +172,10 @@ class PiecewiseFunction(AnyFunction):
 
         if self.tdim != other.tdim:
             return False
-        for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
-            assert shape0 == shape1
-            if f0 != f1:
+        if self._pieces.keys() != other._pieces.keys():
+            return False
+        for shape, f in self._pieces.items():
+            if f != other._pieces[shape]:
                 return False
         return True
 
-- 
2.43.0


From 370242ddd87b73bd972d560d9d84c37ea0057653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 17/56] fix: take dot and cross products of two piecewise
 functions piece by piece

---
 symfem/piecewise_functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index e3455cc..18a2087 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -390,6 +390,12 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The product
         """
+        if isinstance(other_in, PiecewiseFunction):
+            new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
+            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
+                assert shape0 == shape1
+                new_pieces[shape0] = f0.dot(f1)
+            return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction(
             {shape: f.dot(other_in) for shape, f in self._pieces.items()}, self.tdim
         )
@@ -403,6 +409,12 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The cross product
         """
+        if isinstance(other_in, PiecewiseFunction):
+            new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
+            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
+                assert shape0 == shape1
+                new_pieces[shape0] = f0.cross(f1)
+            return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction(
             {shape: f.cross(other_in) for shape, f in self._pieces.items()}, self.tdim
         )
-- 
2.43.0


From 4c30edca8648b767dec880d7604be34fedb6e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 18/56] fix: take dot and cross products of basis functions
 that are piecewise

---
 symfem/basis_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 56ac37b..54d16dc 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -261,7 +261,7 @@ class BasisFunction(AnyFunction):
         Return:
             The dot product
         """
-        return self.get_function().dot(other_in)
+        return self.get_function().dot(_unwrap(other_in))
 
     def cross(self, other_in: FunctionInput) -> AnyFunction:
         """Compute the cross product with another function.
@@ -272,7 +272,7 @@ class BasisFunction(AnyFunction):
         Return:
             The cross product
         """
-        return self.get_function().cross(other_in)
+        return self.get_function().cross(_unwrap(other_in))
 
     def div(self) -> AnyFunction:
         """Compute the divergence of the function.
-- 
2.43.0


From 749c3a9540c52fcb572fd975ebf79ae5bac3821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 19/56] fix: find the piece at a point from the values of the
 coordinates

---
 symfem/piecewise_functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 18a2087..85bbcf7 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -315,14 +315,20 @@ class PiecewiseFunction(AnyFunction):
         if isinstance(values, AnyFunction):
             values = values.as_sympy()
 
-        if isinstance(values, (tuple, list)) and len(values) == self.tdim:
+        if (
+            isinstance(vars, (tuple, list))
+            and isinstance(values, (tuple, list))
+            and len(values) == self.tdim
+            and set(vars[: self.tdim]) == set(x[: self.tdim])
+        ):
             for i in values:
                 i_s = _to_sympy_format(i)
                 assert isinstance(i_s, sympy.core.expr.Expr)
                 if not i_s.is_constant():
                     break
             else:
-                return self.get_piece(tuple(values)).subs(vars, values)
+                point = dict(zip(vars, values))
+                return self.get_piece(tuple(point[i] for i in x[: self.tdim])).subs(vars, values)
 
         return PiecewiseFunction(
             {shape: f.subs(vars, values) for shape, f in self._pieces.items()}, self.tdim
-- 
2.43.0


From bbbf960d49fc8b7ae9f1e2033a87f69171591309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 20/56] fix: dual polygons with different origins are not equal

---
 symfem/references.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 5bf4f34..d39eb06 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -251,7 +251,11 @@ class Reference(ABC):
         """Check if two references are equal."""
         if not isinstance(other, Reference):
             return False
-        return type(self) is type(other) and self.vertices == other.vertices
+        return (
+            type(self) is type(other)
+            and self.vertices == other.vertices
+            and self.origin == other.origin
+        )
 
     def __hash__(self) -> int:
         """Check if two references are equal."""
-- 
2.43.0


From adeec51ef1c5b9b2eb08c9fce326af30363276df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 21/56] fix: keep reflected operations with sympy matrices
 working on basis functions

---
 symfem/basis_functions.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 54d16dc..1fe93be 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -83,7 +83,9 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return _unwrap(other) + self.get_function()
+        if isinstance(other, AnyFunction):
+            return _unwrap(other) + self.get_function()
+        return self.get_function().__radd__(other)
 
     def __sub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -105,7 +107,9 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return _unwrap(other) - self.get_function()
+        if isinstance(other, AnyFunction):
+            return _unwrap(other) - self.get_function()
+        return self.get_function().__rsub__(other)
 
     def __neg__(self) -> AnyFunction:
         """Negate.
@@ -135,7 +139,9 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return _unwrap(other) / self.get_function()
+        if isinstance(other, AnyFunction):
+            return _unwrap(other) / self.get_function()
+        return self.get_function().__rtruediv__(other)
 
     def __mul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -157,7 +163,9 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return _unwrap(other) * self.get_function()
+        if isinstance(other, AnyFunction):
+            return _unwrap(other) * self.get_function()
+        return self.get_function().__rmul__(other)
 
     def __matmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -179,7 +187,9 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return _unwrap(other) @ self.get_function()
+        if isinstance(other, AnyFunction):
+            return _unwrap(other) @ self.get_function()
+        return self.get_function().__rmatmul__(other)
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
         """Raise to a power.
-- 
2.43.0


From a17bdd69be1ad692c7a70e10756d742e2830bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 22/56] fix: integrate a piecewise function only once over a
 domain shared by its pieces

---
 symfem/piecewise_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 85bbcf7..d20a873 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -480,6 +480,8 @@ class PiecewiseFunction(AnyFunction):
             ref = _piece_reference(self.tdim, shape)
             sub_domain = ref.intersection(domain)
             if sub_domain is not None:
+                if sub_domain == domain:
+                    return f.integral(domain, vars, dummy_vars)
                 result += f.integral(sub_domain, vars, dummy_vars)
         return result
 
-- 
2.43.0


From 1f18e7a62f17b7dea38ce01dd6af76f3d4baada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 23/56] fix: give direct serendipity elements interior
 functions of the right degree

---
 symfem/elements/direct_serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/direct_serendipity.py b/symfem/elements/direct_serendipity.py
index 9694551..b24447c 100644
--- a/symfem/elements/direct_serendipity.py
+++ b/symfem/elements/direct_serendipity.py
@@ -73,7 +73,7 @@ class DirectSerendipity(DirectElement):
 
         # Functions in interior
         if order >= 4:
-            for f in DPC(reference, 4, "equispaced").get_basis_functions():
+            for f in DPC(reference, order - 4, "equispaced").get_basis_functions():
                 basis_functions.append(f * x[0] * x[1] * (1 - x[0]) * (1 - x[1]))
                 basis_entities.append((2, 0))
 
-- 
2.43.0


From b1b105b8b880420652a9e911fbb1fdfc78cb2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 24/56] fix: include the interior degrees of freedom of
 Bernstein elements on tetrahedra

---
 symfem/elements/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index fbe9d57..283376a 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -222,7 +222,7 @@ class Bernstein(CiarletElement):
                             )
                         )
 
-            if reference.name == "tetrahedon":
+            if reference.name == "tetrahedron":
                 for i in range(1, order):
                     for j in range(1, order - i):
                         for k in range(1, order - i - j):
-- 
2.43.0


From f349c808357f99bede311a3fb494042d3f76dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 25/56] fix: use divergence free and curl free functions in the
 2D serendipity vector spaces

---
 symfem/elements/ac.py          | 2 +-
 symfem/elements/serendipity.py | 4 ++--
 symfem/polynomials/polysets.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/elements/ac.py b/symfem/elements/ac.py
index d34c6d1..c69667c 100644
--- a/symfem/elements/ac.py
+++ b/symfem/elements/ac.py
@@ -99,4 +99,4 @@ class AC(CiarletElement):
     min_order = 0
     continuity = "H(div)"
     value_type = "vector"
-    last_updated = "2023.06"
+    last_updated = "2026.11"
diff --git a/symfem/elements/serendipity.py b/symfem/elements/serendipity.py
index 453de53..67f59ad 100644
--- a/symfem/elements/serendipity.py
+++ b/symfem/elements/serendipity.py
@@ -151,7 +151,7 @@ class SerendipityCurl(CiarletElement):
     min_order = 1
     continuity = "H(curl)"
     value_type = "vector"
-    last_updated = "2023.07"
+    last_updated = "2026.11"
 
 
 class SerendipityDiv(CiarletElement):
@@ -210,4 +210,4 @@ class SerendipityDiv(CiarletElement):
     min_order = 1
     continuity = "H(div)"
     value_type = "vector"
-    last_updated = "2023.07"
+    last_updated = "2026.11"
diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index decc39c..77d3d3e 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -353,10 +353,10 @@ def Hdiv_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                (variables[0] ** (order + 1), (order + 1) * variables[0] ** order * variables[1])
+                (variables[0] ** (order + 1), -(order + 1) * variables[0] ** order * variables[1])
             ),
             VectorFunction(
-                ((order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
+                (-(order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
             ),
         ]
     if domain_dim == 3:
@@ -410,7 +410,7 @@ def Hcurl_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                ((order + 1) * variables[0] ** order * variables[1], -(variables[0] ** (order + 1)))
+                ((order + 1) * variables[0] ** order * variables[1], variables[0] ** (order + 1))
             ),
             VectorFunction(
                 (variables[1] ** (order + 1), (order + 1) * variables[0] * variables[1] ** order)
-- 
2.43.0


From bcb1c201b0224ad0fc4aba4b2cba38ba48869822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 26/56] fix: build 3D H(curl) serendipity sets in the variables
 asked for

---
 symfem/polynomials/polysets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 77d3d3e..6ceb9c6 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -446,7 +446,7 @@ def Hcurl_serendipity(
                     )
                 )
 
-        for p in serendipity_set_1d(domain_dim, order + 1):
+        for p in serendipity_set_1d(domain_dim, order + 1, variables):
             out.append(VectorFunction(tuple(p.diff(i) for i in variables)))
         return out
 
-- 
2.43.0


From 669b893320c6c05783b9d47c87e567a5a458e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 27/56] fix: give the degree 2 Kong-Mulder-Veldhuizen
 tetrahedron face functions that vanish on the other faces

---
 symfem/elements/kmv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 9440421..8ddd659 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -4,6 +4,7 @@ This element's definition is given in https://doi.org/10.1023/A:1004420829610
 (Chin-Joe-Kong, Mulder, Van Veldhuizen, 1999)
 """
 
+import itertools
 import typing
 
 import sympy
@@ -51,12 +52,11 @@ def kmv_tet_polyset(m: int, mf: int, mi: int) -> typing.List[FunctionInput]:
     poly: typing.List[FunctionInput] = []
     poly += polynomial_set_1d(3, m)
 
-    # TODO: check this
-    for axes in [(x[0], x[1]), (x[0], x[2]), (x[1], x[2]), (x[1] - x[0], x[2] - x[0])]:
-        b = axes[0] * axes[1] * (1 - axes[0] - axes[1])
+    barycentric = [1 - x[0] - x[1] - x[2], x[0], x[1], x[2]]
+    for a0, a1, a2 in itertools.combinations(barycentric, 3):
         for i in range(mf - 2):
             for j in range(mf - 2 - i):
-                poly.append(x[0] ** i * x[1] ** j * x[2] ** (mf - 3 - i - j) * b)
+                poly.append(a0 * a1 * a2 * a0**i * a1**j * a2 ** (mf - 3 - i - j))
 
     b = x[0] * x[1] * x[2] * (1 - x[0] - x[1] - x[2])
     for i in range(mi - 3):
@@ -250,4 +250,4 @@ class KongMulderVeldhuizen(CiarletElement):
     min_order = 1
     continuity = "C0"
     value_type = "scalar"
-    last_updated = "2023.05"
+    last_updated = "2026.11"
-- 
2.43.0


From 07d3a335149afe15f9560ad74570988c1f47c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 28/56] fix: Alfeld-Sorokina functions are vectors

---
 symfem/elements/alfeld_sorokina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/alfeld_sorokina.py b/symfem/elements/alfeld_sorokina.py
index 2c19329..44e1407 100644
--- a/symfem/elements/alfeld_sorokina.py
+++ b/symfem/elements/alfeld_sorokina.py
@@ -123,7 +123,7 @@ class AlfeldSorokina(CiarletElement):
         poly: typing.List[FunctionInput] = []
         poly += [PiecewiseFunction({i: j for i, j in zip(subs, p)}, 2) for p in piece_list]
 
-        super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
 
     @property
     def lagrange_subdegree(self) -> int:
-- 
2.43.0


From 6cbc801415bb8e1c66d0d111b58d34e07f0274f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 29/56] fix: write cached matrices atomically

---
 symfem/caching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 53ff17a..24b4795 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -1,6 +1,7 @@
 """Functions to cache matrices."""
 
 import os
+import tempfile
 import typing
 from hashlib import sha256
 
@@ -57,8 +58,11 @@ def save_cached_matrix(
     """
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
-    with open(filename, "w") as f:
+    # Write to a temporary file first, so that the file never holds an incomplete matrix
+    handle, temp_filename = tempfile.mkstemp(dir=CACHE_DIR)
+    with os.fdopen(handle, "w") as f:
         f.write(matrix_to_string(matrix))
+    os.replace(temp_filename, filename)
 
 
 def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
-- 
2.43.0


From 6223f8a44021288a22c7251c5ac526dabf9171a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 30/56] fix: Morley-Wang-Xu elements are not continuous

---
 symfem/elements/morley_wang_xu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/morley_wang_xu.py b/symfem/elements/morley_wang_xu.py
index 340a2b5..5e94eb0 100644
--- a/symfem/elements/morley_wang_xu.py
+++ b/symfem/elements/morley_wang_xu.py
@@ -123,6 +123,6 @@ class MorleyWangXu(CiarletElement):
     min_order = 1
     max_order = {"interval": 1, "triangle": 2, "tetrahedron": 3}
     # continuity = "C{order}"
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.06"
-- 
2.43.0


From 466b89bfa414d93074c71f90423cecb36a4ed61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 31/56] fix: enriched Galerkin elements are not continuous

---
 symfem/elements/enriched_galerkin.py        | 2 +-
 symfem/elements/vector_enriched_galerkin.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/enriched_galerkin.py b/symfem/elements/enriched_galerkin.py
index 51b30fa..2ff4c69 100644
--- a/symfem/elements/enriched_galerkin.py
+++ b/symfem/elements/enriched_galerkin.py
@@ -50,6 +50,6 @@ class EnrichedGalerkin(EnrichedElement):
     names = ["enriched Galerkin", "EG"]
     references = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.05"
diff --git a/symfem/elements/vector_enriched_galerkin.py b/symfem/elements/vector_enriched_galerkin.py
index bdc6538..22d84ce 100644
--- a/symfem/elements/vector_enriched_galerkin.py
+++ b/symfem/elements/vector_enriched_galerkin.py
@@ -59,7 +59,7 @@ class Enrichment(CiarletElement):
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
     max_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
 
@@ -100,6 +100,6 @@ class VectorEnrichedGalerkin(EnrichedElement):
     names = ["enriched vector Galerkin", "locking-free enriched Galerkin", "LFEG"]
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
-- 
2.43.0


From be5198ebfe6fcf9e4b7e3fc29101ba55fb653f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 32/56] fix: make matrix Lagrange functions matrices

---
 symfem/elements/lagrange.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index a0797b1..2cecebd 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -202,19 +202,22 @@ class MatrixLagrange(CiarletElement):
         """
         scalar_space = Lagrange(reference, order, variant)
         dofs: ListOfFunctionals = []
-        if reference.tdim == 1:
-            directions: typing.List[typing.Tuple[int, ...]] = [(1,)]
-        else:
-            directions = [
-                tuple(1 if i == j else 0 for j in range(reference.tdim**2))
-                for i in range(reference.tdim**2)
-            ]
+        tdim = reference.tdim
+        directions = [
+            tuple(
+                tuple(1 if i * tdim + j == n else 0 for j in range(tdim)) for i in range(tdim)
+            )
+            for n in range(tdim**2)
+        ]
         for p in scalar_space.dofs:
             for d in directions:
                 dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
 
         poly: typing.List[FunctionInput] = []
-        poly += polynomial_set_vector(reference.tdim, reference.tdim**2, order)
+        poly += [
+            tuple(tuple(a[i * tdim + j] for j in range(tdim)) for i in range(tdim))
+            for a in polynomial_set_vector(tdim, tdim**2, order)
+        ]
 
         super().__init__(
             reference,
-- 
2.43.0


From 894e85941c79dda679c0ba0a68a9e2477f95f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 33/56] fix: use the variant's factors in tensor factorisations
 of Q

---
 symfem/elements/q.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 69157bb..e3fbbb4 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -101,14 +101,16 @@ class Q(CiarletElement):
         Returns:
             The tensor factorisation
         """
-        if self.variant == "lobatto":
+        if self.variant == "lobatto" or self.reference != self.reference.default_reference():
             return super().get_tensor_factorisation()
         from symfem import create_element
 
-        interval_q = create_element("interval", "Lagrange", self.order)
+        interval_q = create_element("interval", "Lagrange", self.order, variant=self.variant)
 
         if self.order == 0:
             perm = [0]
+        elif self.variant == "legendre":
+            perm = list(range((self.order + 1) ** self.reference.tdim))
         elif self.reference.name == "quadrilateral":
             n = self.order - 1
             perm = [0, 2] + [4 + n + i for i in range(n)]
-- 
2.43.0


From 756f8e4eeb2e28eee436f9dbbe54a4bac8c4a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 34/56] fix: use divergence conforming functions in the
 tetrahedral BDFM space

---
 symfem/elements/bdfm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a69589e..4d81b14 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -65,7 +65,7 @@ def bdfm_polyset(reference: Reference, order: int) -> typing.List[FunctionInput]
             pset.append((x[0] * p, x[1] * p, x[2] * p))
         for i in range(1, order):
             p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((p * (x[0] + x[1]), 0, x[1] * p))
+            pset.append((p * (x[0] + x[1]), 0, x[2] * p))
 
     return pset
 
-- 
2.43.0


From d0944c724c7e14e5e4a4f1bee281588f367a009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 35/56] fix: report the lowest superdegree of TNTcurl elements
 on hexahedra

---
 symfem/elements/tnt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 5fb4da2..560ae3d 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -322,7 +322,9 @@ class TNTcurl(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
-        return self.order * self.reference.tdim + 1
+        if self.reference.tdim == 3:
+            return max(self.order * 3, self.order + 3)
+        return self.order * 2 + 1
 
     names = ["tiniest tensor Hcurl", "TNTcurl"]
     references = ["quadrilateral", "hexahedron"]
-- 
2.43.0


From 559ca8da122f6bae5db97ab83da511784003c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 36/56] fix: build 3D H(div) serendipity sets in the variables
 asked for

---
 symfem/polynomials/polysets.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 6ceb9c6..c32bda2 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -387,7 +387,16 @@ def Hdiv_serendipity(
                     )
                 )
 
-        return [i.curl() for i in a]
+        return [
+            VectorFunction(
+                tuple(
+                    i[(d + 2) % 3].diff(variables[(d + 1) % 3])
+                    - i[(d + 1) % 3].diff(variables[(d + 2) % 3])
+                    for d in range(3)
+                )
+            )
+            for i in a
+        ]
 
     raise NotImplementedError()
 
-- 
2.43.0


From b086a5ede51a29716027a05f86e85c32ced35447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 37/56] fix: refuse equispaced quadrature with fewer than two
 points

---
 symfem/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/quadrature.py b/symfem/quadrature.py
index ed3b97f..8ed7544 100644
--- a/symfem/quadrature.py
+++ b/symfem/quadrature.py
@@ -18,6 +18,8 @@ def equispaced(n: int) -> typing.Tuple[typing.List[Scalar], typing.List[Scalar]]
     Returns:
         Quadrature points and weights
     """
+    if n < 2:
+        raise NotImplementedError()
     return (
         [sympy.Rational(i, n - 1) for i in range(n)],
         [
-- 
2.43.0


From 0b09ec3fbf92c02a2ccee09fcdbcd32ec2395d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 38/56] fix: map covariantly to cells of higher geometric
 dimension

---
 symfem/mappings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/mappings.py b/symfem/mappings.py
index 3be9c39..bbd48aa 100644
--- a/symfem/mappings.py
+++ b/symfem/mappings.py
@@ -102,14 +102,14 @@ def covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
+    gdim = len(map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
 
     assert f.is_vector
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(gdim)])
     return j_inv @ f
 
 
@@ -156,13 +156,13 @@ def double_covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
+    gdim = len(map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
     assert f.is_matrix
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(gdim)])
     return j_inv @ f @ j_inv.transpose()
 
 
-- 
2.43.0


From 7f2a169dff22164f2d0d6988daf4e713739dccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 39/56] fix: compute areas of quadrilaterals that are not
 parallelograms

---
 symfem/references.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index d39eb06..551d9f9 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1614,7 +1614,14 @@ class Quadrilateral(Reference):
         Returns:
             The volume of the cell
         """
-        return self.jacobian()
+        from symfem.functions import VectorFunction
+
+        # The area of a plane quadrilateral is half of the cross product of its diagonals
+        d0 = VectorFunction(_vsub(self.vertices[3], self.vertices[0]))
+        d1 = VectorFunction(_vsub(self.vertices[2], self.vertices[1]))
+        out = d0.cross(d1).norm().as_sympy() / 2
+        assert isinstance(out, sympy.core.expr.Expr)
+        return out
 
     def contains(self, point: PointType) -> bool:
         """Check if a point is contained in the reference.
-- 
2.43.0


From ddca89537de5528558159a52417e89c3f51867ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 40/56] fix: compare piecewise functions with all other
 functions

---
 symfem/functions.py           | 5 +++++
 symfem/piecewise_functions.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 1fe9748..9185362 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -93,6 +93,11 @@ def _check_equal(first: SympyFormat, second: SympyFormat) -> bool:
                 return False
         return True
 
+    if isinstance(first, dict) and isinstance(second, dict):
+        return first.keys() == second.keys() and all(
+            _check_equal(f, second[shape]) for shape, f in first.items()
+        )
+
     if isinstance(first, sympy.matrices.dense.MutableDenseMatrix) and isinstance(
         second, sympy.matrices.dense.MutableDenseMatrix
     ):
diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index d20a873..cccc82b 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -168,7 +168,7 @@ class PiecewiseFunction(AnyFunction):
     def __eq__(self, other: typing.Any) -> bool:
         """Check if two functions are equal."""
         if not isinstance(other, PiecewiseFunction):
-            return False
+            return super().__eq__(other)
 
         if self.tdim != other.tdim:
             return False
-- 
2.43.0


From ecc59f1f969f4f88f2b83f85bfebf5c6f672e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 41/56] fix: keep the lattice of points of the prism inside the
 cell

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 551d9f9..30ea114 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1985,8 +1985,8 @@ class Prism(Reference):
                 sympy.Rational(2 * j + 1, 2 * (n + 1)),
                 sympy.Rational(2 * k + 1, 2 * (n + 1)),
             )
-            for i in range(n + 1)
-            for j in range(n + 1 - i)
+            for i in range(n)
+            for j in range(n - i)
             for k in range(n + 1)
         )
 
-- 
2.43.0


From 1dee347d0e01e0983bb23c932b7615444ba5e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 42/56] fix: map interior functions of H(div) and H(curl)
 elements with the element's own mapping

---
 symfem/elements/abf.py                 |  2 +-
 symfem/elements/aw.py                  |  1 +
 symfem/elements/bddf.py                |  2 +-
 symfem/elements/bdfm.py                | 10 ++++++++--
 symfem/elements/bdm.py                 |  8 +++++++-
 symfem/elements/tnt.py                 | 21 +++++++++++----------
 symfem/elements/trimmed_serendipity.py | 12 +++++++-----
 7 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/symfem/elements/abf.py b/symfem/elements/abf.py
index 864e7a4..6bfd375 100644
--- a/symfem/elements/abf.py
+++ b/symfem/elements/abf.py
@@ -45,7 +45,7 @@ class ArnoldBoffiFalk(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             edges=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            faces=(IntegralMoment, Nedelec, order, {"variant": variant}),
+            faces=(IntegralMoment, Nedelec, order, "contravariant", {"variant": variant}),
         )
 
         for i in range(order + 1):
diff --git a/symfem/elements/aw.py b/symfem/elements/aw.py
index 6477459..082188b 100644
--- a/symfem/elements/aw.py
+++ b/symfem/elements/aw.py
@@ -212,6 +212,7 @@ class NonConformingArnoldWinther(CiarletElement):
                         tuple(tuple(p * j for j in i) for i in component22),
                         dof,
                         entity=(2, 0),
+                        mapping="double_contravariant",
                     )
                 )
 
diff --git a/symfem/elements/bddf.py b/symfem/elements/bddf.py
index 7d0cdd5..1421bdf 100644
--- a/symfem/elements/bddf.py
+++ b/symfem/elements/bddf.py
@@ -63,7 +63,7 @@ class BDDF(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
         )
 
         self.variant = variant
diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index 4d81b14..b6bda21 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -91,13 +91,19 @@ class BDFM(CiarletElement):
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, Lagrange, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    NedelecFirstKind,
+                    order - 1,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         else:
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+                cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
             )
         self.variant = variant
 
diff --git a/symfem/elements/bdm.py b/symfem/elements/bdm.py
index 05d0f0e..62cc758 100644
--- a/symfem/elements/bdm.py
+++ b/symfem/elements/bdm.py
@@ -38,7 +38,13 @@ class BDM(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+            cells=(
+                IntegralMoment,
+                NedelecFirstKind,
+                order - 1,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
         self.variant = variant
 
diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 560ae3d..892ff74 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -240,12 +240,12 @@ class TNTcurl(CiarletElement):
                 )
         if reference.tdim == 2:
             for f in face_moments:
-                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="contravariant"))
+                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="covariant"))
         elif reference.tdim == 3:
             for face_n in range(6):
                 for f in face_moments:
                     dofs.append(
-                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="contravariant")
+                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="covariant")
                     )
 
         # Interior Moments
@@ -292,9 +292,7 @@ class TNTcurl(CiarletElement):
                         f *= x[2] ** (k - 1) * x[2] ** k
                         grad_f = ScalarFunction(f).grad(3)
                         dofs.append(
-                            IntegralAgainst(
-                                reference, grad_f, entity=(3, 0), mapping="contravariant"
-                            )
+                            IntegralAgainst(reference, grad_f, entity=(3, 0), mapping="covariant")
                         )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -394,7 +392,7 @@ class TNTdiv(CiarletElement):
                 grad_f = ScalarFunction(f).grad(reference.tdim)
                 dofs.append(
                     IntegralAgainst(
-                        reference, grad_f, entity=(reference.tdim, 0), mapping="covariant"
+                        reference, grad_f, entity=(reference.tdim, 0), mapping="contravariant"
                     )
                 )
 
@@ -407,7 +405,7 @@ class TNTdiv(CiarletElement):
                     )
                     dofs.append(
                         IntegralAgainst(
-                            reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                            reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                         )
                     )
         if reference.tdim == 3:
@@ -429,7 +427,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         f = (
@@ -447,7 +445,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         if k in [0, 2]:
@@ -466,7 +464,10 @@ class TNTdiv(CiarletElement):
                             )
                             dofs.append(
                                 IntegralAgainst(
-                                    reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                    reference,
+                                    f,
+                                    entity=(reference.tdim, 0),
+                                    mapping="contravariant",
                                 )
                             )
 
diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 5e050d0..3540f5d 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -97,8 +97,8 @@ class TrimmedSerendipityHcurl(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             edges=(TangentIntegralMoment, DPC, order - 1, {"variant": variant}),
-            faces=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
-            volumes=(IntegralMoment, VectorDPC, order - 5, "contravariant", {"variant": variant}),
+            faces=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            volumes=(IntegralMoment, VectorDPC, order - 5, "covariant", {"variant": variant}),
         )
         if order >= 2:
             for f_n in range(reference.sub_entity_count(2)):
@@ -106,7 +106,7 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     f = ScalarFunction(x[0] ** (order - 1 - i) * x[1] ** i).grad(2)
                     f2 = VectorFunction((f[1], -f[0])).subs(x, tuple(t))
                     dofs.append(
-                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="contravariant")
+                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -190,7 +190,7 @@ class TrimmedSerendipityHdiv(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
         )
         if order >= 2:
             if reference.tdim == 2:
@@ -207,7 +207,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
             for f in fs:
                 f2 = f.subs(x, tuple(t))
                 dofs.append(
-                    IntegralAgainst(reference, f2, entity=(reference.tdim, 0), mapping="covariant")
+                    IntegralAgainst(
+                        reference, f2, entity=(reference.tdim, 0), mapping="contravariant"
+                    )
                 )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
-- 
2.43.0


From 84a81ee4226dbbc6613b4f5276c6b711a178b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 43/56] fix: map only its own basis functions with each part of
 an enriched element

---
 symfem/finite_element.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 674fc9e..2fd6420 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1217,9 +1217,12 @@ class EnrichedElement(FiniteElement):
         Returns:
             The basis functions mapped to the cell
         """
-        out = []
+        out: typing.List[AnyFunction] = []
+        start = 0
         for e in self._subelements:
-            out += e.map_to_cell(vertices_in, basis, forward_map, inverse_map)
+            sub_basis = None if basis is None else basis[start : start + e.space_dim]
+            out += e.map_to_cell(vertices_in, sub_basis, forward_map, inverse_map)
+            start += e.space_dim
         return out
 
     def get_polynomial_basis(self) -> typing.List[AnyFunction]:
-- 
2.43.0


From 01c8cb257d6f3980d11da7ca011f82972a05b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 44/56] fix: ignore cache files that do not hold a matrix

---
 symfem/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 24b4795..f93d168 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -42,7 +42,8 @@ def load_cached_matrix(
         if mat.rows != size[0] or mat.cols != size[1]:
             return None
         return mat
-    except FileNotFoundError:
+    except (FileNotFoundError, ValueError):
+        # There is no file, or the file does not hold a matrix
         return None
 
 
-- 
2.43.0


From 615d8a90c06993a668cad930aeb51f36f72eff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 45/56] fix: save pictures to every file name in a list

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 0f6d6d2..b86ad20 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1144,7 +1144,7 @@ class Picture:
         if isinstance(filename, list):
             for fn in filename:
                 self.save(fn, plot_options)
-                return
+            return
 
         assert isinstance(filename, str)
         if filename.endswith(".svg"):
-- 
2.43.0


From 0df4e0b0d7b0cd0927e4b8f4977a0df10b1a6bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 46/56] fix: keep bezier curves inside pictures

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index b86ad20..9e7ee12 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -341,7 +341,7 @@ class Bezier(PictureElement):
         Returns:
             A set of points
         """
-        return (self.start, self.end)
+        return (self.start, self.mid1, self.mid2, self.end)
 
 
 class Arrow(PictureElement):
-- 
2.43.0


From bd16b0df1c2f161ec1a046de96e47d1641f2c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 47/56] fix: plot function values with the requested scale each
 time

---
 symfem/functions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 9185362..628bdbf 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -548,7 +548,7 @@ class ScalarFunction(AnyFunction):
             self._f = f
         assert isinstance(self._f, sympy.core.expr.Expr)
         self._plot_beziers: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[typing.Tuple[PointType, PointType, PointType, PointType]],
         ] = {}
 
@@ -854,8 +854,9 @@ class ScalarFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_beziers:
-            self._plot_beziers[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_beziers:
+            self._plot_beziers[key] = []
             pts, pairs = reference.make_lattice_with_lines_float(n)
 
             value_scale *= sympy.Rational(5, 8)
@@ -879,7 +880,7 @@ class ScalarFunction(AnyFunction):
                 dj = deriv.subs(x, pj).dot(d_pj - pts[j]).as_sympy()
                 assert isinstance(di, sympy.core.expr.Expr)
                 assert isinstance(dj, sympy.core.expr.Expr)
-                self._plot_beziers[(reference, n)].append(
+                self._plot_beziers[key].append(
                     (
                         tuple(pi) + (evals[i],),
                         tuple(d_pi) + (evals[i] + di * value_scale,),
@@ -888,7 +889,7 @@ class ScalarFunction(AnyFunction):
                     )
                 )
 
-        for s, m1, m2, e in self._plot_beziers[(reference, n)]:
+        for s, m1, m2, e in self._plot_beziers[key]:
             img.add_bezier(s, m1, m2, e, colors.ORANGE)
 
     def with_floats(self) -> AnyFunction:
@@ -961,7 +962,7 @@ class VectorFunction(AnyFunction):
             assert i.is_scalar
 
         self._plot_arrows: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[
                 typing.Tuple[typing.Tuple[sympy.core.expr.Expr, ...], VectorFunction, float]
             ],
@@ -1285,8 +1286,9 @@ class VectorFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_arrows:
-            self._plot_arrows[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_arrows:
+            self._plot_arrows[key] = []
             pts = reference.make_lattice_float(n)
             value_scale /= 4
 
@@ -1296,8 +1298,8 @@ class VectorFunction(AnyFunction):
                 value = VectorFunction(tuple(sympy.Float(float(v)) for v in value_s))
                 value *= value_scale
                 size = float(value.norm() * 40)
-                self._plot_arrows[(reference, n)].append((p, VectorFunction(p) + value, size))
-        for p, q, size in self._plot_arrows[(reference, n)]:
+                self._plot_arrows[key].append((p, VectorFunction(p) + value, size))
+        for p, q, size in self._plot_arrows[key]:
             img.add_arrow(p, q, colors.ORANGE, size)
 
     def with_floats(self) -> AnyFunction:
-- 
2.43.0


From 5d2a6ab6686edd16271bdb41b743bae646c9388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 48/56] fix: refuse a tensor factorisation that does not exist
 whatever was asked before

---
 symfem/finite_element.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 2fd6420..29a04c6 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -719,21 +719,24 @@ class CiarletElement(FiniteElement):
         Returns:
             The basis functions
         """
+        if use_tensor_factorisation:
+            basis = self._get_basis_functions_tensor()
+            if self._basis_functions is None:
+                self._basis_functions = basis
+            return basis
+
         if self._basis_functions is None:
-            if use_tensor_factorisation:
-                self._basis_functions = self._get_basis_functions_tensor()
-            else:
-                minv = self.get_dual_matrix(inverse=True)
+            minv = self.get_dual_matrix(inverse=True)
 
-                sfs: typing.List[AnyFunction] = []
-                pb = self.get_polynomial_basis()
-                for i, dof in enumerate(self.dofs):
-                    sf = ScalarFunction(minv[i, 0]) * pb[0]
-                    for c, d in zip(minv.row(i)[1:], pb[1:]):
-                        sf += ScalarFunction(c) * d
-                    sfs.append(sf)
+            sfs: typing.List[AnyFunction] = []
+            pb = self.get_polynomial_basis()
+            for i, dof in enumerate(self.dofs):
+                sf = ScalarFunction(minv[i, 0]) * pb[0]
+                for c, d in zip(minv.row(i)[1:], pb[1:]):
+                    sf += ScalarFunction(c) * d
+                sfs.append(sf)
 
-                self._basis_functions = sfs
+            self._basis_functions = sfs
 
         assert isinstance(self._basis_functions, list)
 
-- 
2.43.0


From 27f3431646d912d62025e0ed68bd89aa19f8ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 49/56] fix: give trimmed serendipity Hcurl elements of order 4
 and above all their interior DOFs

---
 symfem/elements/trimmed_serendipity.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 3540f5d..0ce2f20 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -108,6 +108,23 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     dofs.append(
                         IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
+        if order >= 4 and reference.tdim == 3:
+            for i in range(order - 3):
+                for j in range(order - 3 - i):
+                    for dim in range(3):
+                        if i == 0 or dim != 0:
+                            p = x[0] ** i * x[1] ** j * x[2] ** (order - 4 - i - j)
+                            f3 = VectorFunction(tuple(x)).cross(
+                                VectorFunction([p if d == dim else 0 for d in range(3)])
+                            )
+                            dofs.append(
+                                IntegralAgainst(
+                                    reference,
+                                    f3.curl().subs(x, tuple(t)),
+                                    entity=(3, 0),
+                                    mapping="covariant",
+                                )
+                            )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
-- 
2.43.0


From 882af3ed56c3c5eee64035c36b0ca886a0bb5a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:38 +0000
Subject: [PATCH 50/56] fix: anchor text in SVG pictures at the side that was
 asked for

---
 symfem/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 9e7ee12..2b47790 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -616,16 +616,16 @@ class Math(PictureElement):
         else:
             anchor = ""
             if self.anchor.startswith("north"):
-                anchor += "dominant-baseline:top"
+                anchor += "dominant-baseline:text-before-edge"
             elif self.anchor.startswith("south"):
-                anchor += "dominant-baseline:bottom"
+                anchor += "dominant-baseline:text-after-edge"
             else:
                 anchor += "dominant-baseline:middle"
             anchor += ";"
             if self.anchor.endswith("east"):
-                anchor += "text-anchor:right"
+                anchor += "text-anchor:end"
             elif self.anchor.endswith("west"):
-                anchor += "text-anchor:left"
+                anchor += "text-anchor:start"
             else:
                 anchor += "text-anchor:middle"
 
-- 
2.43.0


From c278c8e631c1d2dd824b21404a0f8ad5ee426743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 51/56] fix: recognise a point cell's own point in whatever
 form it is written

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 30ea114..4f1a533 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -894,7 +894,7 @@ class Point(Reference):
             Is the point contained in the reference?
         """
         if self.tdim == 0:
-            return point in self.vertices
+            return all(i - j == 0 for i, j in zip(parse_point_input(point), self.vertices[0]))
         raise NotImplementedError()
 
 
-- 
2.43.0


From 8de10c6000af871447b9fa1fbd70761c7a8d8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 52/56] fix: describe degrees of freedom by the functionals
 they apply

---
 symfem/functionals.py | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 932b9fe..2b00820 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -454,8 +454,10 @@ class DerivativePointEvaluation(BaseFunctional):
         """
         assert isinstance(self.point, VectorFunction)
         if len(self.point) == 1:
-            desc = "v\\mapsto "
-            desc += f"v'({','.join([_to_tex(i, True) for i in self.point])})"
+            order = self.derivative[0]
+            desc = "v\\mapsto v"
+            desc += "'" * order if order <= 3 else f"^{{({order})}}"
+            desc += f"({','.join([_to_tex(i, True) for i in self.point])})"
             return desc, []
         desc = "v\\mapsto"
         desc += "\\frac{\\partial"
@@ -550,6 +552,8 @@ class PointDirectionalDerivativeEvaluation(BaseFunctional):
         assert isinstance(self.dir, VectorFunction)
         if len(self.point) == 1:
             desc = "v\\mapsto "
+            if self.dir[0] != 1:
+                desc += f"({_to_tex(self.dir[0], True)})"
             desc += f"v'({','.join([_to_tex(i, True) for i in self.point])})"
             return desc, []
         desc = "v\\mapsto"
@@ -842,13 +846,14 @@ class DotPointEvaluation(BaseFunctional):
         """
         desc = "\\boldsymbol{v}\\mapsto"
         desc += "\\boldsymbol{v}(" + ",".join([_to_tex(i, True) for i in self.dof_point()]) + ")"
-        if self.vector.is_vector:
+        vector = self.vector.subs(x, self.point)
+        if vector.is_vector:
             desc += "\\cdot\\left(\\begin{array}{c}"
-            assert hasattr(self.vector, "__iter__")
-            desc += "\\\\".join([_to_tex(i) for i in self.vector])
+            assert hasattr(vector, "__iter__")
+            desc += "\\\\".join([_to_tex(i) for i in vector])
             desc += "\\end{array}\\right)"
-        elif self.vector != 1:
-            desc += f"\\cdot{_to_tex(self.vector)}"
+        elif vector != 1:
+            desc += f"\\cdot {_to_tex(vector)}"
         return desc, []
 
     name = "Dot point evaluation"
@@ -928,7 +933,7 @@ class PointDivergenceEvaluation(BaseFunctional):
             Representation of the functional as TeX, and list of terms involved
         """
         desc = "\\boldsymbol{v}\\mapsto"
-        desc += "\\nabla a\\cdot\\boldsymbol{v}"
+        desc += "\\nabla\\cdot\\boldsymbol{v}"
         desc += "(" + ",".join([_to_tex(i, True) for i in self.dof_point()]) + ")"
         return desc, []
 
@@ -1433,6 +1438,19 @@ class DerivativeIntegralMoment(IntegralMoment):
         assert isinstance(dw, tuple)
         return dw
 
+    def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
+        """Get a representation of the functional as TeX, and list of terms involved.
+
+        Returns:
+            Representation of the functional as TeX, and list of terms involved
+        """
+        desc = "v\\mapsto"
+        desc += f"\\displaystyle\\int_{{{self.entity_tex()}}}"
+        if self.f != 1:
+            desc += "(" + _to_tex(self.f, True) + ")"
+        desc += "\\nabla v\\cdot" + _to_tex(self.dot_with)
+        return desc, [self.entity_definition()]
+
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
         """Apply to the functional to a function.
 
@@ -1723,6 +1741,15 @@ class InnerProductIntegralMoment(IntegralMoment):
         self.inner_with_left = inner_with_left
         self.inner_with_right = inner_with_right
 
+    def _scale_tex(self) -> typing.Tuple[str, str]:
+        """Get the factor that the integral is scaled by as TeX.
+
+        Returns:
+            A number, and the size of the entity
+        """
+        ratio = sympy.nsimplify(self.integral_domain.jacobian() / self.integral_domain.volume())
+        return "" if ratio == 1 else _to_tex(ratio), f"|{{{self.entity_tex()}}}|"
+
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Take the inner product of a function with the moment direction.
 
@@ -1759,10 +1786,12 @@ class InnerProductIntegralMoment(IntegralMoment):
         """
         entity = self.entity_tex()
         entity_def = self.entity_definition()
+        number, size = self._scale_tex()
         desc = "\\boldsymbol{V}\\mapsto"
-        desc += f"\\displaystyle\\int_{{{entity}}}"
+        desc += f"\\displaystyle\\int_{{{entity}}}{number}"
         if self.f != 1:
             desc += "(" + _to_tex(self.f, True) + ")"
+        desc += size
         desc += _to_tex(self.inner_with_left) + "^{\\text{t}}"
         desc += "\\boldsymbol{V}"
         desc += _to_tex(self.inner_with_right)
@@ -1813,11 +1842,12 @@ class NormalInnerProductIntegralMoment(InnerProductIntegralMoment):
         entity = self.entity_tex()
         entity_n = self.entity_number()
         entity_def = self.entity_definition()
+        number, size = self._scale_tex()
         desc = "\\mathbf{V}\\mapsto"
-        desc += f"\\displaystyle\\int_{{{entity}}}"
+        desc += f"\\displaystyle\\int_{{{entity}}}{number}"
         if self.f != 1:
             desc += "(" + _to_tex(self.f, True) + ")"
-        desc += f"|{{{entity}}}|"
+        desc += size
         desc += "\\hat{\\boldsymbol{n}}^{\\text{t}}" + f"_{{{entity_n}}}"
         desc += "\\mathbf{V}"
         desc += "\\hat{\\boldsymbol{n}}" + f"_{{{entity_n}}}"
-- 
2.43.0


From d427c3f995386044ddeda53971306901a0f49dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 53/56] fix: keep the cell as the reference of a normal
 derivative

---
 symfem/functionals.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 2b00820..1ea4f76 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -588,7 +588,6 @@ class PointNormalDerivativeEvaluation(PointDirectionalDerivativeEvaluation):
         """
         assert isinstance(edge, Interval)
         super().__init__(reference, point_in, edge.normal(), entity=entity, mapping=mapping)
-        self.reference = edge
 
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
-- 
2.43.0


From 1fa3e03af3599217c87e6930dd2aba5305e40b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 54/56] fix: compare the facets that hexahedra and prisms share
 in continuity tests

---
 symfem/finite_element.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 29a04c6..20ff044 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -391,24 +391,24 @@ class FiniteElement(ABC):
         elif self.reference.name == "hexahedron":
             vertices = (
                 (0, 0, 0),
-                (0, 0, 1),
                 (0, 1, 0),
+                (0, 0, 1),
                 (0, 1, 1),
                 (-1, 0, 0),
-                (-1, 0, 1),
                 (-1, 1, 0),
+                (-1, 0, 1),
                 (-1, 1, 1),
             )
             entity_pairs = [
                 [0, (0, 0)],
-                [0, (2, 2)],
-                [0, (4, 1)],
+                [0, (2, 1)],
+                [0, (4, 2)],
                 [0, (6, 3)],
-                [1, (1, 1)],
-                [1, (2, 0)],
-                [1, (6, 5)],
-                [1, (9, 3)],
-                [2, (0, 2)],
+                [1, (1, 0)],
+                [1, (2, 1)],
+                [1, (6, 3)],
+                [1, (9, 5)],
+                [2, (2, 0)],
             ]
         elif self.reference.name == "prism":
             vertices = ((-1, 0, 0), (0, 0, 0), (0, 1, 0), (-1, 0, 1), (0, 0, 1), (0, 1, 1))
@@ -419,7 +419,7 @@ class FiniteElement(ABC):
                 [0, (5, 5)],
                 [1, (1, 3)],
                 [1, (2, 4)],
-                [1, (6, 6)],
+                [1, (5, 5)],
                 [1, (7, 8)],
                 [2, (2, 3)],
             ]
-- 
2.43.0


From 0866950623529a100ac5771e06c1cdc5343f1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 55/56] fix: make Buffa-Christiansen functions conforming
 inside the dual polygon

---
 symfem/elements/dual.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/dual.py b/symfem/elements/dual.py
index ecb5be9..7f62524 100644
--- a/symfem/elements/dual.py
+++ b/symfem/elements/dual.py
@@ -302,8 +302,8 @@ class BuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(i + 1 - N // 2, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
@@ -371,8 +371,8 @@ class RotatedBuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(N // 2 - 1 - i, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(N // 2 - 1 - i, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
@@ -412,6 +412,6 @@ class RotatedBuffaChristiansen(DualCiarletElement):
     references = ["dual polygon"]
     min_order = 1
     max_order = 1
-    continuity = "H(div)"
+    continuity = "H(curl)"
     value_type = "vector dual"
     last_updated = "2023.05"
-- 
2.43.0


From f2c095c53409cf3f4f2b0ea7fe1a8ab1023514c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 56/56] fix: shift the arrows of DOF diagrams only where
 positions are shared

---
 symfem/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 20ff044..b14656b 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -189,7 +189,7 @@ class FiniteElement(ABC):
                     if direction is not None:
                         shifted = False
                         for d2, p in enumerate(dof_positions):
-                            if d != d2 and d[0] == p:
+                            if d[3] != d2 and d[0] == p:
                                 shifted = True
                                 break
                         img.add_dof_arrow(d[0], direction, d[3], colors.entity(d[2][0]), shifted)
-- 
2.43.0

