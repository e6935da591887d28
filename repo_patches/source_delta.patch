From 1aed41498fc3636f05749bd6353f57aa4a6393ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 01/67] fix: evaluate the SciPy matrix exponential per
 wavelength

The batched scipy.linalg.expm (seen with SciPy 1.18) returns wrong matrices
when matrices with strongly different norms share a batch, so the spectrum
of a layer depended on which other wavelengths were evaluated with it.
---
 src/elli/solver4x4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4f2610d..2da15ba 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -78,7 +78,9 @@ class PropagatorExpm(Propagator):
             "torch": lambda mats: torch.linalg.matrix_exp(
                 torch.from_numpy(mats)
             ).numpy(),
-            "scipy": lambda mats: scipy_expm(mats),
+            # One matrix at a time: the batched expm of some SciPy versions
+            # returns wrong matrices if their norms differ strongly.
+            "scipy": lambda mats: np.array([scipy_expm(mat) for mat in mats]),
         }
 
         if backend == "automatic" and TORCH_AVAILABLE:
-- 
2.43.0


From 6665619020ae1cb27c5bfb80132bc16dfb9339ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/67] fix: sort exit modes of lossless anisotropic
 half-spaces by direction

Rounding noise in the imaginary part of real eigenvalues decided which
waves counted as forward, so a transparent anisotropic exit medium could
get backward waves and reflectances above one.
---
 src/elli/solver4x4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 2da15ba..5f6ba43 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -221,7 +221,9 @@ class Solver4x4(Solver):
         q, p = np.linalg.eig(delta)
 
         # Sort according to z propagation direction, by Re(q) first, then Im(q)
-        idx = np.lexsort((-np.real(q), -np.imag(q)))
+        # Numerical noise in Im(q) of propagating waves must not decide the direction.
+        q_imag = np.where(np.abs(np.imag(q)) > 1e-10, np.imag(q), 0)
+        idx = np.lexsort((-np.real(q), -q_imag))
 
         q = np.take_along_axis(q, idx, axis=-1)
         p = np.take_along_axis(p, idx[:, np.newaxis, :], axis=-1)
-- 
2.43.0


From 59859dbf66d208181c35f8709ab5103141b637c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 03/67] fix: inhomogeneous layers of zero thickness evaluate to
 finite tensors

---
 src/elli/structure.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..9d12868 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -252,6 +252,17 @@ class InhomogeneousLayer(AbstractLayer):
         """
         return np.linspace(0, self.thickness, self.div + 1)
 
+    def get_relative_depth(self, z: float) -> float:
+        """Returns the position 'z' relative to the thickness of the layer.
+
+        Args:
+            z (float): Position in the layer (in nm)
+
+        Returns:
+            float: Relative position, from 0 to 1 (0 for a layer without thickness).
+        """
+        return z / self.thickness if self.thickness > 0 else 0.0
+
     @abstractmethod
     def get_tensor(self, z: float, lbda: npt.ArrayLike) -> npt.NDArray:
         """Returns permittivity tensor matrix for position 'z'."""
@@ -313,7 +324,7 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        m_r = rotation_v_theta(E_Z, self.angle * self.get_relative_depth(z))
         return m_r @ epsilon @ m_r.T
 
 
@@ -387,7 +398,7 @@ class VaryingMixtureLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(self.get_relative_depth(z))
         )
         return epsilon
 
-- 
2.43.0


From 4c14a0abe13d93196ff79edd07339eaecb132c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 04/67] fix: adding dispersions creates a new sum and changes
 no operand

---
 src/elli/dispersions/base_dispersion.py | 60 +++++++++----------------
 src/elli/dispersions/table_epsilon.py   |  4 --
 src/elli/dispersions/table_index.py     |  4 --
 3 files changed, 20 insertions(+), 48 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..de420ce 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -222,13 +222,6 @@ class Dispersion(BaseDispersion):
         if isinstance(other, dispersions.TableEpsilon):
             return other.__add__(self)
 
-        if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
-
-        if isinstance(other, (int, float)):
-            return DispersionSum(self, dispersions.EpsilonInf(other))
-
         return DispersionSum(self, other)
 
     def as_index(self):
@@ -298,13 +291,6 @@ class IndexDispersion(BaseDispersion):
         if isinstance(other, dispersions.Table):
             return other.__add__(self)
 
-        if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
-
-        if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
-
         return IndexDispersionSum(self, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
@@ -345,21 +331,17 @@ class DispersionSum(Dispersion):
 
         self.dispersions = []
         for disp in disps:
-            self += disp
-
-    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
-        self._check_valid_operand(other)
-
-        if isinstance(other, DispersionSum):
-            self.dispersions += other.dispersions
-            return self
+            self._check_valid_operand(disp)
 
-        if isinstance(other, (int, float)):
-            self.dispersions.append(dispersions.EpsilonInf(eps=other))
-            return self
+            if isinstance(disp, DispersionSum):
+                self.dispersions += disp.dispersions
+            elif isinstance(disp, (int, float)):
+                self.dispersions.append(dispersions.EpsilonInf(eps=disp))
+            else:
+                self.dispersions.append(disp)
 
-        self.dispersions.append(other)
-        return self
+    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(self, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         dielectric_function = sum(
@@ -388,23 +370,21 @@ class IndexDispersionSum(IndexDispersion):
 
         self.index_dispersions = []
         for disp in disps:
-            self += disp
+            self._check_valid_operand(disp)
+
+            if isinstance(disp, IndexDispersionSum):
+                self.index_dispersions += disp.index_dispersions
+            elif isinstance(disp, (int, float)):
+                self.index_dispersions.append(
+                    dispersions.ConstantRefractiveIndex(n=disp)
+                )
+            else:
+                self.index_dispersions.append(disp)
 
     def __add__(
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
-        self._check_valid_operand(other)
-
-        if isinstance(other, IndexDispersionSum):
-            self.index_dispersions += other.index_dispersions
-            return self
-
-        if isinstance(other, (int, float)):
-            self.index_dispersions.append(dispersions.ConstantRefractiveIndex(n=other))
-            return self
-
-        self.index_dispersions.append(other)
-        return self
+        return IndexDispersionSum(self, other)
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
         refractive_index = sum(
diff --git a/src/elli/dispersions/table_epsilon.py b/src/elli/dispersions/table_epsilon.py
index 1124756..374b5f4 100644
--- a/src/elli/dispersions/table_epsilon.py
+++ b/src/elli/dispersions/table_epsilon.py
@@ -66,10 +66,6 @@ class TableEpsilon(Dispersion):
         if isinstance(other, Dispersion):
             return DispersionSum(self, other)
 
-        if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
-
         raise TypeError(
             f"unsupported operand type(s) for +: '{type(self)}' and '{type(other)}'"
         )
diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..23e9e6f 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -67,10 +67,6 @@ class Table(IndexDispersion):
         if isinstance(other, IndexDispersion):
             return IndexDispersionSum(self, other)
 
-        if isinstance(other, IndexDispersionSum):
-            other.dispersions.append(self)
-            return other
-
         raise TypeError(
             f"unsupported operand type(s) for +: '{type(self)}' and '{type(other)}'"
         )
-- 
2.43.0


From 32fb0eb17415ed16efcebc031c155ad535f65cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 05/67] fix: adding a number to an index table

---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 23e9e6f..2a01613 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From 6078b14b31c78e2b47dd6ca54c73e4bed1bfe24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 06/67] fix: as_index for tables and other dispersions with
 mandatory parameters

---
 src/elli/dispersions/base_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index de420ce..56a26f2 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -245,9 +245,11 @@ class Dispersion(BaseDispersion):
             },
         )
 
-        idx_dispersion = AnonymousIndexDispersion()
+        # The parameters were already checked, when this object was created.
+        idx_dispersion = AnonymousIndexDispersion.__new__(AnonymousIndexDispersion)
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
+        idx_dispersion.default_lbda_range = self.default_lbda_range
 
         return idx_dispersion
 
-- 
2.43.0


From e3a71eb32f1bd4389213026bf36d57d692491bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 07/67] fix: evaluate dispersions for integer wavelengths and
 lists like for floats

---
 src/elli/dispersions/base_dispersion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 56a26f2..15ead09 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -113,12 +113,14 @@ class BaseDispersion(ABC):
         """Returns the dielectric constant for wavelength 'lbda' default unit (nm)
         in the convention ε1 + iε2."""
         lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(lbda, dtype=float)
         return np.asarray(self.dielectric_function(lbda), dtype=np.complex128)
 
     def get_refractive_index(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the refractive index for wavelength 'lbda' default unit (nm)
         in the convention n + ik."""
         lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(lbda, dtype=float)
 
         if isinstance(self, IndexDispersion):
             return self.refractive_index(lbda)
-- 
2.43.0


From 1aef1be108311f729808a9a64ddf1dce94c128fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 08/67] fix: formula names may begin with the name of a
 function or constant

---
 src/elli/formula_parser/dispersion_function_grammar.lark | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..e1763cc 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -18,7 +18,7 @@
 
 ?power: "(" expression ")"
         | FUNC "(" expression ")" -> func
-        | "sum" "[" repeated_expression "]" -> sum_expr
+        | _SUM "[" repeated_expression "]" -> sum_expr
         | NAME -> single_param_name
         | SIGNED_NUMBER -> number
         | BUILTIN -> builtin
@@ -41,8 +41,9 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)(?!\w)/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?!\w)/
+_SUM.1: /sum(?!\w)/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From 9f1bbd8d44a92bfa4ac6d18fc980469fe5b544f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 09/67] fix: heaviside in formulas takes its single argument

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..be7e8fe 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda x: np.heaviside(x, 0.5),
         }
 
         if name in names:
-- 
2.43.0


From 81af53c4d84be5f2c0d57987e6d9ac98778c7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 10/67] fix: sums in formulas over terms without the x axis

---
 src/elli/formula_parser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index be7e8fe..c14fa10 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -129,7 +129,9 @@ class FormulaTransformer(Transformer):
 
     def sum_expr(self, expr):
         """Sum an expression"""
-        return expr.sum(axis=1)
+        # Terms without a repeated parameter or without the x axis are valid, too.
+        shape = np.broadcast_shapes(np.shape(expr), (self.no_repeated_params,))
+        return np.broadcast_to(expr, shape).sum(axis=-1)
 
     def single_param_name(self, name):
         """Return a parameter inside a non-repeated section"""
-- 
2.43.0


From 02e5a604675cc1aaa0b91c222ac79ecf5d0ce691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 11/67] fix: formulas with NumPy scalars as single parameters

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index c14fa10..5cf4400 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -51,7 +51,7 @@ class FormulaTransformer(Transformer):
 
     def _check_and_set_single(self, single_params):
         for name, param in single_params.items():
-            if not isinstance(param, (float, int)):
+            if not isinstance(param, (float, int, np.floating, np.integer)):
                 raise TypeError(
                     f"Expected {name} to be of type float but found type {type(param)}."
                 )
-- 
2.43.0


From 839abfdc9e2ff77dd6f8f63e80066acacb497438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 12/67] fix: evaluate formula dispersions at a single
 wavelength

---
 src/elli/dispersions/formula.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..fc5af7d 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -109,13 +109,17 @@ class FormulaParser(BaseDispersion):
             )
 
     def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
-        return FormulaTransformer(
+        values = FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=lbda,
+            x_axis_values=np.atleast_1d(lbda),
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
 
+        if np.ndim(lbda) == 0 and np.ndim(values) > 0:
+            return values[0]
+        return values
+
 
 class Formula(Dispersion, FormulaParser):
     r"A formula dispersion"
-- 
2.43.0


From b8595b3a66898d5fdee376e3690603a1f11a5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 13/67] fix: oscillators added to a formula dispersion take
 part in its evaluation

---
 src/elli/dispersions/formula.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index fc5af7d..fbf97d0 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -62,13 +62,6 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
@@ -108,6 +101,16 @@ class FormulaParser(BaseDispersion):
                 f"Representation `{representation}` not supported by Formula"
             )
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The repeated parameters as a dict of arrays"""
+        if not self.rep_params:
+            return {}
+
+        return {
+            k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
+        }
+
     def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         values = FormulaTransformer(
             x_axis_name=self.f_axis_name,
-- 
2.43.0


From 9a068c5adcf7818087d082c666759e21a661caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 14/67] fix: copies of formula dispersions evaluate their own
 parameters

---
 src/elli/dispersions/formula.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index fbf97d0..14d3e41 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -66,7 +66,7 @@ class FormulaParser(BaseDispersion):
 
         self._check_repr()
 
-        self._dispersion_function = self.__dispersion_function
+        self._axis_conversion = None
         if unit is not None:
             self._set_unit_conversion(unit)
 
@@ -74,16 +74,12 @@ class FormulaParser(BaseDispersion):
         quantity = ureg(unit)
         if quantity.check("[length]"):
             scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling * lbda
-            )
+            self._axis_conversion = lambda lbda: scaling * lbda
             return
 
         if quantity.check("[energy]"):
             scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling / lbda
-            )
+            self._axis_conversion = lambda lbda: scaling / lbda
             return
 
         raise ValueError(f"Unsupported unit `{unit}`.")
@@ -111,7 +107,11 @@ class FormulaParser(BaseDispersion):
             k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
         }
 
-    def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+    def _dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        # No reference to self is stored, hence copies evaluate their own parameters.
+        if self._axis_conversion is not None:
+            lbda = self._axis_conversion(lbda)
+
         values = FormulaTransformer(
             x_axis_name=self.f_axis_name,
             x_axis_values=np.atleast_1d(lbda),
-- 
2.43.0


From d012630de278d4a96259bf3c8f64954926e0a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 15/67] fix: Cody-Lorentz with a steep Urbach tail evaluates to
 finite values

---
 src/elli/dispersions/cody_lorentz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/cody_lorentz.py b/src/elli/dispersions/cody_lorentz.py
index 20302ba..ac3f24d 100644
--- a/src/elli/dispersions/cody_lorentz.py
+++ b/src/elli/dispersions/cody_lorentz.py
@@ -61,7 +61,7 @@ class CodyLorentz(Dispersion):
 
         # fmt: off
         return (
-            E1 / E * np.exp((E - Et) / Eu) * np.heaviside(Et - E, 1)
+            E1 / E * np.exp(np.minimum(E - Et, 0) / Eu) * np.heaviside(Et - E, 1)
             + G(E) * L(E) * np.heaviside(E - Et, 0)
         )
         # fmt: on
-- 
2.43.0


From 528a315032210f216bca2efc9116157a9de5d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 16/67] fix: interval of the first point in the Kramers-Kronig
 transforms

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 7a2a1aa78cb6a033e6b7852f210d3a671d4cb75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 17/67] fix: deltas are shifted into the selected range by
 multiples of 360 or folded

---
 src/elli/result.py | 30 +++++++++++-------------------
 src/elli/utils.py  |  7 ++++++-
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..da09f86 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -29,7 +29,7 @@ import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
 
-from .utils import DeltaRange
+from .utils import DeltaRange, convert_delta_range
 
 
 def _convert_index(index: str) -> int:
@@ -112,10 +112,7 @@ class Result:
         .. math::
             \rho = \tan \psi \exp(-i \Delta)
         """
-        return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho, deg=True))
 
     @property
     def delta_t(self) -> npt.NDArray:
@@ -126,10 +123,7 @@ class Result:
         .. math::
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
-        return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho_t, deg=True))
 
     @property
     def rho_matrix(self) -> npt.NDArray:
@@ -197,10 +191,7 @@ class Result:
             \Delta_\text{pp} & \Delta_\text{ps} \\ \Delta_\text{sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho_matrix, deg=True))
 
     @property
     def delta_matrix_t(self) -> npt.NDArray:
@@ -212,12 +203,7 @@ class Result:
             \Delta_\text{t,pp} & \Delta_\text{t,ps} \\ \Delta_\text{t,sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
-            )
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho_matrix_t, deg=True))
 
     @property
     def mueller_matrix(self) -> npt.NDArray:
@@ -367,6 +353,12 @@ class Result:
         else:
             self._power_correction = power_correction
 
+    def _convert_delta(self, delta: npt.NDArray) -> npt.NDArray:
+        """Converts delta values to the selected delta range"""
+        return convert_delta_range(
+            delta, self._delta_range.lower, self._delta_range.upper
+        )
+
     def get(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
 
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..9a9d335 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -50,7 +50,12 @@ def convert_delta_range(
         npt.ArrayLike: Delta values with shifted range.
     """
     delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+
+    if (delta_range.lower, delta_range.upper) == (0, 180):
+        # Deltas d and 360 - d cannot be distinguished in this range.
+        return 180 - np.abs(np.mod(delta_values, 360) - 180)
+
+    return np.mod((delta_values - delta_range.lower), 360) + delta_range.lower
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From d2dd29558bf2da8ae16867741bbb42f929a3d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 18/67] fix: both bounds of a delta range have to be integers

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 9a9d335..fa62b64 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From a928a34ee5056e8fd3aee5f7fd8426042ebcdf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 19/67] fix: Result.get returns the requested variable

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index da09f86..a106a73 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -376,7 +376,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From 16315f824307d9057b2ace6689b15fa4410b03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 20/67] fix: r_LR, t_LR, R_LR and T_LR address the circular
 matrices

---
 src/elli/result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index a106a73..1b78b46 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -413,6 +413,10 @@ class Result:
         if len(names) > 1:
             (i, j) = map(_convert_index, names[1])
 
+            # Linear matrices have no elements of circular polarization
+            if names[0] in ["r", "t", "R", "T"] and set(names[1]) <= {"L", "R"}:
+                names[0] += "c"
+
         if names[0] in ["psi", "delta", "rho", "R", "T"]:
             if len(names) == 1:
                 return self.__getattribute__(names[0])
-- 
2.43.0


From 3b6e8b094c3820390b5860b31256e085cead8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 21/67] fix: isotropic Mueller matrix of psi/delta tables in
 degrees

---
 src/elli/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index fa62b64..5b60488 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -153,12 +153,13 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
+            # Signs as in Result.mueller_matrix
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = -np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
-- 
2.43.0


From 3f8794ee110430741d35f61d08d076940d245a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 22/67] fix: convert_delta_range accepts lists

---
 src/elli/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 5b60488..2ea307a 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -55,7 +55,9 @@ def convert_delta_range(
         # Deltas d and 360 - d cannot be distinguished in this range.
         return 180 - np.abs(np.mod(delta_values, 360) - 180)
 
-    return np.mod((delta_values - delta_range.lower), 360) + delta_range.lower
+    return (
+        np.mod(np.subtract(delta_values, delta_range.lower), 360) + delta_range.lower
+    )
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From 40c9aac9ef40605ece56b888ad33400f65c48247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 23/67] fix: tables of a single row return its value

---
 src/elli/dispersions/table_epsilon.py | 3 ++-
 src/elli/dispersions/table_index.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/table_epsilon.py b/src/elli/dispersions/table_epsilon.py
index 374b5f4..d1bd3c4 100644
--- a/src/elli/dispersions/table_epsilon.py
+++ b/src/elli/dispersions/table_epsilon.py
@@ -49,7 +49,8 @@ class TableEpsilon(Dispersion):
         self.interpolation = scipy.interpolate.interp1d(
             self.single_params.get("lbda"),
             self.single_params.get("epsilon"),
-            kind=self.kind,
+            # There is nothing to interpolate in a table of a single row.
+            kind="nearest" if len(self.single_params.get("lbda")) == 1 else self.kind,
         )
 
         self.default_lbda_range = self.single_params.get("lbda")
diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 2a01613..c2ec20c 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -48,7 +48,8 @@ class Table(IndexDispersion):
         self.interpolation = scipy.interpolate.interp1d(
             self.single_params.get("lbda"),
             self.single_params.get("n"),
-            kind=self.kind,
+            # There is nothing to interpolate in a table of a single row.
+            kind="nearest" if len(self.single_params.get("lbda")) == 1 else self.kind,
         )
 
         self.default_lbda_range = self.single_params.get("lbda")
-- 
2.43.0


From 73a7d281bc79a295c52f07e5d498a8a280f1ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 24/67] fix: the default wavelengths of a table do not follow
 changes of the array passed in

---
 src/elli/dispersions/table_epsilon.py | 3 ++-
 src/elli/dispersions/table_index.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/table_epsilon.py b/src/elli/dispersions/table_epsilon.py
index d1bd3c4..521f2a8 100644
--- a/src/elli/dispersions/table_epsilon.py
+++ b/src/elli/dispersions/table_epsilon.py
@@ -2,6 +2,7 @@
 """Dispersion specified by a table of wavelengths (nm) and dielectric function values."""
 
 from typing import Any, Dict, Union
+import numpy as np
 import numpy.typing as npt
 import scipy.interpolate
 
@@ -53,7 +54,7 @@ class TableEpsilon(Dispersion):
             kind="nearest" if len(self.single_params.get("lbda")) == 1 else self.kind,
         )
 
-        self.default_lbda_range = self.single_params.get("lbda")
+        self.default_lbda_range = np.array(self.single_params.get("lbda"))
 
     def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
         if isinstance(other, (int, float)):
diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index c2ec20c..1a8b6ab 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -2,6 +2,7 @@
 """Dispersion specified by a table of wavelengths (nm) and refractive index values."""
 
 from typing import Union
+import numpy as np
 import numpy.typing as npt
 import scipy.interpolate
 
@@ -52,7 +53,7 @@ class Table(IndexDispersion):
             kind="nearest" if len(self.single_params.get("lbda")) == 1 else self.kind,
         )
 
-        self.default_lbda_range = self.single_params.get("lbda")
+        self.default_lbda_range = np.array(self.single_params.get("lbda"))
 
     def __add__(
         self, other: Union[int, float, "IndexDispersion"]
-- 
2.43.0


From 7a0dfdc9087c20e533afd2287c148745a1171910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 25/67] fix: SpectraRay tables over wavelength can be read

---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From b11c4a909a5594117b99dce005455cc4635b443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 26/67] fix: sign of the Kramers-Kronig transforms on
 descending axes

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 85f9ba6..3fec937 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=2 * x[0] - x[1])
+    interval = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 90726e6620dc38f449df42627ba0a9e4fe93ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 27/67] fix: Maxwell Garnett mixtures restore the NumPy error
 settings when a constituent raises

---
 src/elli/materials.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 868151e..2fd24cd 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -402,17 +402,12 @@ class MaxwellGarnettEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
 
         # Catch calculation warnings
-        old_settings = np.geterr()
-        np.seterr(invalid="ignore")
-
-        maxwell_garnett = (
-            e_h
-            * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
-            / (2 * e_h + e_g - fraction * (e_g - e_h))
-        )
-
-        # Reset numpy settings
-        np.seterr(**old_settings)
+        with np.errstate(invalid="ignore"):
+            maxwell_garnett = (
+                e_h
+                * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
+                / (2 * e_h + e_g - fraction * (e_g - e_h))
+            )
 
         epsilon = np.where(np.logical_and(e_h == 0, e_g == 0), e_h, maxwell_garnett)
         return epsilon
-- 
2.43.0


From a499effb610a4fd0ba65d5cfb439e4001f27689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 28/67] fix: Maxwell Garnett mixtures without host have finite
 tensors

---
 src/elli/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 2fd24cd..351395f 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -409,7 +409,7 @@ class MaxwellGarnettEMA(MixtureMaterial):
                 / (2 * e_h + e_g - fraction * (e_g - e_h))
             )
 
-        epsilon = np.where(np.logical_and(e_h == 0, e_g == 0), e_h, maxwell_garnett)
+        epsilon = np.where(e_h == 0, e_g if fraction == 1 else e_h, maxwell_garnett)
         return epsilon
 
 
-- 
2.43.0


From 707713254bad4bf0cecaf7b667f39f1d88247acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 29/67] fix: Bruggeman mixtures of lossless metals and of
 vanishing tensor elements

---
 src/elli/materials.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 351395f..dd0e7e5 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -448,17 +448,19 @@ class BruggemanEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
         f = fraction
 
-        mask_equal = np.nonzero(np.equal(e_h, e_g))
-        mask_different = np.nonzero(np.not_equal(e_h, e_g))
-
-        p = sqrt(e_h[mask_different]) / sqrt(e_g[mask_different])
-        b = 0.25 * ((3 * f - 1) * (1 / p - p) + p)
-        z = b + sqrt(power(b, 2) + 0.5)
-
-        e_mix = np.full_like(e_h, np.nan)
-        e_mix[mask_equal] = e_h[mask_equal]
-        e_mix[mask_different] = (
-            z * sqrt(e_h[mask_different]) * sqrt(e_g[mask_different])
+        product = sqrt(e_h) * sqrt(e_g)
+        center = 0.25 * ((2 - 3 * f) * e_h + (3 * f - 1) * e_g)
+        root = sqrt(power(center, 2) + 0.5 * e_h * e_g)
+
+        # The physical solution is the one whose root is in phase with the product.
+        phase = np.real(root * np.conj(product))
+        # Without absorption both solutions may be real. Then it is the one
+        # that becomes absorbing when both constituents become absorbing.
+        lossless = np.real((center + root + e_h + e_g) * np.conj(root))
+        undecided = np.abs(phase) <= 1e-9 * np.abs(root) * np.abs(product)
+
+        e_mix = np.where(
+            np.where(undecided, lossless, phase) >= 0, center + root, center - root
         )
 
         return e_mix
-- 
2.43.0


From 641ebaf63a01d76a954be0d403c57e6874baff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 30/67] fix: Bruggeman root for constituents on opposite sides
 of the real axis

---
 src/elli/materials.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index dd0e7e5..24919ca 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -448,7 +448,10 @@ class BruggemanEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
         f = fraction
 
-        product = sqrt(e_h) * sqrt(e_g)
+        root_h, root_g = sqrt(e_h), sqrt(e_g)
+        # Both roots are taken from the same half-plane, also across the branch cut.
+        root_g = np.where(np.real(root_h * np.conj(root_g)) < 0, -root_g, root_g)
+        product = root_h * root_g
         center = 0.25 * ((2 - 3 * f) * e_h + (3 * f - 1) * e_g)
         root = sqrt(power(center, 2) + 0.5 * e_h * e_g)
 
-- 
2.43.0


From 0948fa443cb55017d6fc9a9d979054d32f2d6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 31/67] fix: Maxwell Garnett mixtures with almost vanishing
 host elements

---
 src/elli/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 24919ca..98b67e9 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -405,8 +405,8 @@ class MaxwellGarnettEMA(MixtureMaterial):
         with np.errstate(invalid="ignore"):
             maxwell_garnett = (
                 e_h
-                * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
-                / (2 * e_h + e_g - fraction * (e_g - e_h))
+                * ((1 + 2 * fraction) * e_g + 2 * (1 - fraction) * e_h)
+                / ((2 + fraction) * e_h + (1 - fraction) * e_g)
             )
 
         epsilon = np.where(e_h == 0, e_g if fraction == 1 else e_h, maxwell_garnett)
-- 
2.43.0


From fb6939fea5d3f3450a02053b4bdd11cc22a6286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 32/67] fix: Maxwell Garnett mixtures without guest are the
 host

---
 src/elli/materials.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 98b67e9..e9ee93c 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -409,7 +409,9 @@ class MaxwellGarnettEMA(MixtureMaterial):
                 / ((2 + fraction) * e_h + (1 - fraction) * e_g)
             )
 
-        epsilon = np.where(e_h == 0, e_g if fraction == 1 else e_h, maxwell_garnett)
+        # Removable singularities: no host and no guest
+        single = (e_h == 0) | (fraction == 0)
+        epsilon = np.where(single, e_g if fraction == 1 else e_h, maxwell_garnett)
         return epsilon
 
 
-- 
2.43.0


From 6bc6732a7575d3113efed9e8a82e374ca1cd4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 33/67] fix: Looyenga and Bruggeman mixtures of lossless metals
 with negative zero imaginary parts

---
 src/elli/materials.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index e9ee93c..97d1b73 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -363,10 +363,11 @@ class LooyengaEMA(MixtureMaterial):
         Returns:
             npt.NDArray: Permittivity tensor.
         """
-        epsilon = (
-            self.host_material.get_tensor(lbda) ** (1 / 3) * (1 - fraction)
-            + self.guest_material.get_tensor(lbda) ** (1 / 3) * fraction
-        ) ** 3
+        # Adding zero removes the sign of vanishing imaginary parts,
+        # which would select the wrong side of the branch cut.
+        e_h = self.host_material.get_tensor(lbda) + 0.0
+        e_g = self.guest_material.get_tensor(lbda) + 0.0
+        epsilon = (e_h ** (1 / 3) * (1 - fraction) + e_g ** (1 / 3) * fraction) ** 3
         return epsilon
 
 
@@ -446,8 +447,10 @@ class BruggemanEMA(MixtureMaterial):
         Returns:
             npt.NDArray: Permittivity tensor.
         """
-        e_h = self.host_material.get_tensor(lbda)
-        e_g = self.guest_material.get_tensor(lbda)
+        # Adding zero removes the sign of vanishing imaginary parts,
+        # which would select the wrong side of the branch cuts.
+        e_h = self.host_material.get_tensor(lbda) + 0.0
+        e_g = self.guest_material.get_tensor(lbda) + 0.0
         f = fraction
 
         root_h, root_g = sqrt(e_h), sqrt(e_g)
-- 
2.43.0


From f7ff251f6ef59e866abac13fb436198493fce6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 34/67] fix: the minus sign of a number in a formula binds
 weaker than a power

---
 .../dispersion_function_grammar.lark          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index e1763cc..04634ce 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -13,14 +13,18 @@
        | term "/" factor -> div
 
 ?factor: power
-       | power "**" power -> power
+       | "-" factor -> neg
+       | "+" factor
 
+?power: atom
+      | atom "**" factor -> power
 
-?power: "(" expression ")"
+
+?atom: "(" expression ")"
         | FUNC "(" expression ")" -> func
         | _SUM "[" repeated_expression "]" -> sum_expr
         | NAME -> single_param_name
-        | SIGNED_NUMBER -> number
+        | NUMBER -> number
         | BUILTIN -> builtin
 
 ?repeated_expression: repeated_term
@@ -33,11 +37,15 @@
                 | repeated_term "/" repeated_factor -> div
 
 ?repeated_factor: repeated_power
-                  | repeated_power "**" repeated_power -> power
+                | "-" repeated_factor -> neg
+                | "+" repeated_factor
+
+?repeated_power: repeated_atom
+               | repeated_atom "**" repeated_factor -> power
 
-?repeated_power: "(" repeated_expression ")"
+?repeated_atom: "(" repeated_expression ")"
                  | FUNC "(" repeated_expression ")" -> func
-                 | SIGNED_NUMBER -> number
+                 | NUMBER -> number
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
@@ -46,7 +54,7 @@ BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?!\w)/
 _SUM.1: /sum(?!\w)/
 
 %import common.CNAME -> NAME
-%import common.SIGNED_NUMBER
+%import common.NUMBER
 %import common.WS_INLINE
 
-%ignore WS_INLINE
\ No newline at end of file
+%ignore WS_INLINE
-- 
2.43.0


From 0b7ada6e7d1a5438cf5c5112f05373df29af71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 35/67] fix: formulas with integer parameters are evaluated in
 floating-point arithmetic

---
 src/elli/formula_parser/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 5cf4400..86c8e3d 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -139,7 +139,7 @@ class FormulaTransformer(Transformer):
             return self.x_axis_values
 
         if name in self.single_params:
-            return self.single_params[name]
+            return float(self.single_params[name])
 
         raise ValueError(f"No such parameter {name}")
 
@@ -151,10 +151,12 @@ class FormulaTransformer(Transformer):
             )
 
         if name in self.single_params:
-            return self.single_params[name]
+            return float(self.single_params[name])
 
         if name in self.repeated_params:
-            return self.repeated_params[name]
+            # Integers would overflow and have no negative powers
+            param = np.asarray(self.repeated_params[name])
+            return param.astype(float) if param.dtype.kind in "iu" else param
 
         raise ValueError(f"No such parameter {name}")
 
-- 
2.43.0


From 8ca216ecfbbc3eca677a9dddf604695213a5a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 36/67] fix: Woollam wavelength axes in energies and
 wavenumbers are converted to nm

---
 src/elli/importer/woollam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..42a51d7 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -87,9 +87,9 @@ def scale_to_nm(unit: str, dataframe: pd.DataFrame) -> pd.DataFrame:
         pd.DataFrame: The dataframe with scaled wavelength axis.
     """
     try:
-        scaling = ureg(unit).to("nm").magnitude
+        wavelength = dataframe.index.levels[1].astype(float).to_numpy()
         dataframe.index = dataframe.index.set_levels(
-            dataframe.index.levels[1].astype(float) * scaling, level=1
+            (wavelength * ureg(unit)).to("nm").magnitude, level=1
         )
 
         return dataframe
-- 
2.43.0


From 8eea7f1338c039da7021eb9b003714ac783a4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 37/67] fix: Woollam data lines with signs, exponents or
 integers are data

---
 src/elli/importer/woollam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index 42a51d7..8eceeae 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -19,6 +19,9 @@ logger = logging.getLogger(__name__)
 is_float_regex = re.compile(r"[+-]?(\d+([.]\d*)?([eE][+-]?\d+)?|[.]\d+([eE][+-]?\d+)?)")
 
 
+_NUMBER = r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?"
+
+
 def is_float(line: Union[float, int, str]) -> bool:
     """Checks whether the given line is a float
 
@@ -45,7 +48,7 @@ def _is_wvase_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in wvase tabular layout.
     """
-    return bool(re.search(r"^(-?\d*\.\d*\s+){5}\d*\.\d*$", line))
+    return bool(re.search(rf"^\s*({_NUMBER}\s+){{5}}{_NUMBER}\s*$", line))
 
 
 def _is_complete_ease_tabular(line: str) -> bool:
@@ -58,7 +61,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(rf"^[a-zA-Z]+\s+({_NUMBER}\s+){{5}}{_NUMBER}\s*$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From d6e0a90862a644e05eec05c9b57cb82464d42a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 38/67] fix: WVASE files writing one wavelength in several ways
 can be read

---
 src/elli/importer/woollam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index 8eceeae..7dd8558 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -135,6 +135,7 @@ def _read_wvase_dataframe(file_object: TextIO) -> pd.DataFrame:
 
     dframe = (
         dframe[dframe.apply(lambda x: is_float(x.iloc[0]), axis=1)]
+        .astype({"Wavelength": float})
         .set_index(["Wavelength", "Angle of Incidence"])
         .swaplevel(0, 1)
     )
-- 
2.43.0


From a4b0a2d57bf932cc8dd6cc3749fee96a009bdaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 39/67] fix: SpectraRay angles with a decimal comma and headers
 in the encoding of the file

---
 src/elli/importer/spectraray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 9835e82..9825a7c 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -43,10 +43,10 @@ def read_spectraray_psi_delta(
     # index data correctly
     psi_delta_df.index.name = "Wavelength"
 
-    with open(fname) as f:
+    with open(fname, encoding=encoding) as f:
         header = f.readlines()[0]
 
-    aois = list(map(float, re.split(sep, header)[3::2]))
+    aois = [float(aoi.replace(decimal, ".")) for aoi in re.split(sep, header)[3::2]]
     index = pd.MultiIndex.from_product(
         [aois, ["Ψ", "Δ"]], names=["Angle of Incidence", ""]
     )
-- 
2.43.0


From 0c30d1a5ea45e8497d4773dde62d9d441470afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 40/67] fix: Accurion records of several regions are not added
 up

---
 src/elli/importer/accurion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/accurion.py b/src/elli/importer/accurion.py
index 94bbce3..a57e5bf 100644
--- a/src/elli/importer/accurion.py
+++ b/src/elli/importer/accurion.py
@@ -30,7 +30,8 @@ def read_accurion_psi_delta(fname: str) -> pd.DataFrame:
             "Psi": "Ψ",
         }
     )
-    psi_delta_df = psi_delta_df.groupby(["Angle of Incidence", "Wavelength"]).sum()
+    psi_delta_df = psi_delta_df.set_index(["Angle of Incidence", "Wavelength"])
+    psi_delta_df = psi_delta_df.sort_index()
 
     # wrap delta range
     psi_delta_df.loc[:, "Δ"] = convert_delta_range(psi_delta_df.loc[:, "Δ"], -180, 180)
-- 
2.43.0


From cc03e3e217c3ab2dea45da09038b190b399b6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 41/67] fix: measurement files whose encoding is guessed
 wrongly are read

---
 src/elli/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 2ea307a..06a1543 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -381,5 +381,10 @@ def detect_encoding(fname: str) -> str:
     """
     with open(fname, "rb") as f:
         raw_data = f.read()
-    result = chardet.detect(raw_data)
-    return result["encoding"]
+    encoding = chardet.detect(raw_data)["encoding"] or "latin-1"
+    try:
+        raw_data.decode(encoding)
+    except UnicodeDecodeError:
+        # The guess is unreliable for texts with few special characters.
+        return "latin-1"
+    return encoding
-- 
2.43.0


From e4b1c0e2a3203597da538c68af8d687b43a43c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 42/67] fix: Jones vector of partially polarised light close to
 vertical

---
 src/elli/experiment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e7f5fd6..33ea1d3 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -121,9 +121,11 @@ class Experiment:
             U = self.stokes_vector[2] / (self.stokes_vector[0] * p)
             V = self.stokes_vector[3] / (self.stokes_vector[0] * p)
 
-            if Q == -1:
-                a = 0
-                b = 1
+            if Q < 0:
+                # The magnitudes follow from 1 - Q, as 1 + Q may cancel.
+                magnitude = np.sqrt((1 - Q) / 2)
+                a = np.hypot(U, V) / (2 * magnitude)
+                b = magnitude * np.exp(1j * np.arctan2(V, U))
             else:
                 a = np.sqrt((1 + Q) / 2)
                 b = U / (2 * a) + 1j * V / (2 * a)
-- 
2.43.0


From b65d2d8a5d3649173379e39e4dc6e83f05bc9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 43/67] fix: the polarisation does not follow changes of the
 array passed in

---
 src/elli/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index 33ea1d3..548013f 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -84,7 +84,7 @@ class Experiment:
         if vector is None:
             vector = [1, 0, 1, 0]
 
-        vector = np.asarray(vector)
+        vector = np.array(vector)
 
         if vector.shape == (2,):
             self.jones_vector = vector
-- 
2.43.0


From b209d75c6ca3a6f665772fc1fc8d4eac9d9981aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 44/67] fix: averages over a single result are taken over
 results, not wavelengths

---
 src/elli/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 1b78b46..b7ec77c 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -537,4 +537,6 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        # Average before squeezing, as there may be a single result or wavelength.
+        values = np.array([getattr(result, name) for result in self.results])
+        return np.squeeze(np.mean(values, axis=0))
-- 
2.43.0


From a8b9964e3dfaafa0e3a76897521be26f3933b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 45/67] fix: result lists can be copied and pickled

---
 src/elli/result.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index b7ec77c..d78e99c 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -502,6 +502,10 @@ class ResultList:
             npt.NDArray: Array of data.
         """
 
+        if name == "results" or name.startswith("__"):
+            # Not there yet while copying, or not an attribute of results.
+            raise AttributeError(name)
+
         if name == "mean":
             return AveragedResultList(self.results)
 
@@ -532,6 +536,10 @@ class AveragedResultList(ResultList):
             npt.NDArray: Array of data.
         """
 
+        if name == "results" or name.startswith("__"):
+            # Not there yet while copying, or not an attribute of results.
+            raise AttributeError(name)
+
         if name == "mean":
             raise ValueError(
                 "The ResultList is already averaged and can't be averaged again."
-- 
2.43.0


From aa27bfcf625db8715927ddd034b31a257fa636c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:12 +0000
Subject: [PATCH 46/67] fix: reverting and popping parameter histories restores
 the snapshot and keeps it independent

---
 src/elli/fitting/params_hist.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..1e3e3a9 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -82,13 +82,23 @@ class ParamsHist(Parameters):
             hist_pos (int): The history position to revert to.
         """
         if len(self._history) > (hist_pos % len(self._history)):
-            self.update(self._history[hist_pos])
+            self._restore(self._history[hist_pos])
+
+    def _restore(self, snapshot: Parameters) -> None:
+        """Makes the current parameters equal to a snapshot.
+        The snapshot stays independent of the current parameters.
+
+        Args:
+            snapshot (Parameters): The snapshot to restore.
+        """
+        self.clear()
+        self.update(copy.deepcopy(snapshot))
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
@@ -112,7 +122,7 @@ class ParamsHist(Parameters):
                 The lmfit parameters object to update the values from.
         """
         self.commit()
-        self.update(parameters)
+        self.update(copy.deepcopy(parameters))
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-- 
2.43.0


From e7fc5c626adf801b929df303b34e366d3c5ef48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 47/67] fix: redo in a fit session had an effect before any
 undo

---
 src/elli/fitting/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..bc6b1e1 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -44,7 +44,7 @@ class FitDecorator(ABC):
     def __init__(self) -> None:
         self.params = ParamsHist()
         self.fitted_params = ParamsHist()
-        self.last_params = ParamsHist()
+        self.last_params = None
         self.initial_params = ParamsHist()
         self.param_widgets = {}
         self.fit_kwargs = {}
-- 
2.43.0


From 79c427fb7f20e4a84f9b3ece8b9466f05c0abf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 48/67] fix: fitting from the session saved the parameters
 twice and failed for plain parameters

---
 src/elli/fitting/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index bc6b1e1..4e25ba0 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -128,8 +128,9 @@ class FitDecorator(ABC):
         """
         self.fit(**self.fit_kwargs)
         if isinstance(self.params, ParamsHist):
-            self.params.commit()
-        self.params.update_params(self.fitted_params)
+            self.params.update_params(self.fitted_params)
+        else:
+            self.params.update(self.fitted_params.copy())
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From 11ec663706c80b50ffcff17cef319b7976b080d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 49/67] fix: resetting a fit session lost the parameter history

---
 src/elli/fitting/decorator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 4e25ba0..c83fa60 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -161,8 +161,8 @@ class FitDecorator(ABC):
         if not isinstance(self.params, ParamsHist):
             return
 
-        self.last_params = self.params.pop()
-        self.params = self.initial_params.copy()
+        self.params.update_params(self.initial_params)
+        self.last_params = None
         self.update_widgets()
         self.update_selection()
 
-- 
2.43.0


From b92341e4e17e65cce3623ef6df6afc0d2778a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 50/67] fix: tied parameters and vary flags of a fit session
 were not shown after changes

---
 src/elli/fitting/decorator.py           | 8 ++++++++
 src/elli/fitting/decorator_mmatrix.py   | 2 ++
 src/elli/fitting/decorator_psi_delta.py | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index c83fa60..83d8179 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -47,6 +47,7 @@ class FitDecorator(ABC):
         self.last_params = None
         self.initial_params = ParamsHist()
         self.param_widgets = {}
+        self.vary_widgets = {}
         self.fit_kwargs = {}
 
     @abstractmethod
@@ -177,6 +178,7 @@ class FitDecorator(ABC):
             self.params.commit()
         self.params[change.owner.description].value = change.new
 
+        self.update_widgets()
         self.update_selection()
 
     def update_widgets(self) -> None:
@@ -190,3 +192,9 @@ class FitDecorator(ABC):
                 widget.unobserve(self.update_params, names="value")
                 widget.value = self.params[param].value
                 widget.observe(self.update_params, names="value")
+
+            checkbox = self.vary_widgets.get(param)
+            if checkbox is not None:
+                checkbox.unobserve(self.set_vary_param, names="value")
+                checkbox.value = self.params[param].vary
+                checkbox.observe(self.set_vary_param, names="value")
diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 25999d7..5477edf 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -98,6 +98,7 @@ class FitMuellerMatrix(FitDecorator):
     def create_widgets(self) -> None:
         """Create ipywidgets for parameter estimation"""
         self.param_widgets = {}
+        self.vary_widgets = {}
         checkboxes = []
         for param in self.params.valuesdict():
             curr_checkbox = widgets.Checkbox(
@@ -117,6 +118,7 @@ class FitMuellerMatrix(FitDecorator):
             curr_widget.observe(self.update_params, names=("value", "owner"))
             self.param_widgets[param] = curr_widget
             checkboxes.append(curr_checkbox)
+            self.vary_widgets[param] = curr_checkbox
 
         fit_button = widgets.Button(description="Fit")
         fit_button.on_click(lambda _: self.fit_button_clicked())
diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a19491d 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -156,6 +156,7 @@ class FitRho(FitDecorator):
     def create_widgets(self) -> None:
         """Create ipywidgets for parameter estimation"""
         self.param_widgets = {}
+        self.vary_widgets = {}
         self.selector = widgets.Dropdown(
             options=["Psi/Delta", "Rho", "Pseudo Diel.", "Residual"],
             value="Psi/Delta",
@@ -190,6 +191,7 @@ class FitRho(FitDecorator):
             )
             curr_widget.observe(self.update_params, names="value")
             checkboxes.append(curr_checkbox)
+            self.vary_widgets[param] = curr_checkbox
             self.param_widgets[param] = curr_widget
 
         fit_button = widgets.Button(description="Fit")
-- 
2.43.0


From 6f85fb75d98257f11c31c514a12accef34c412f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 51/67] fix: negative values of parameters without lower bound
 were not shown in fit sessions

---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index a19491d..0564bcc 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -177,7 +177,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From edea1d852c26eec4abbddfc1dcd792baf239b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 52/67] fix: Mueller matrix fit sessions without display
 options raised AttributeError

---
 src/elli/fitting/decorator_mmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 5477edf..4cf846d 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -347,6 +347,9 @@ class FitMuellerMatrix(FitDecorator):
         self.model = model
         self.param_widgets = {}
         self.show_residual = False
+        self.display_single = True
+        self.sharex = False
+        self.full_scale = False
 
         mm_kwargs = ("display_single", "sharex", "full_scale")
         for kwarg in mm_kwargs:
-- 
2.43.0


From fbe87b0a3cb3409949c2b8cbe5159eb4126cd75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 53/67] fix: experiments keep their own copy of the wavelengths

---
 src/elli/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index 548013f..1d080fe 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -146,7 +146,7 @@ class Experiment:
         Args:
             lbda (npt.ArrayLike): single value or array of wavelengths (in nm).
         """
-        lbda_array = np.asarray(lbda)
+        lbda_array = np.array(lbda)
         if np.shape(lbda_array) == ():
             lbda_array = np.asarray([lbda])
         self.lbda = lbda_array
-- 
2.43.0


From 1ebb4fafd30d66e4096fa170b740059c9c3861a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 54/67] fix: materials with tables read from NeXus files could
 not be used in structures, energy tables raised TypeError

---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..717de05 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From 73cbe7b93980f58fbe767b1f975d546d3848b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 55/67] fix: the sample group name was ignored when detecting
 the layout of a NeXus file

---
 src/elli/importer/nexus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 717de05..c4e1abc 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -114,8 +114,10 @@ def read_nexus_psi_delta(
         group_names = NexusGroupNames()
 
     h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.entry}/sample/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+    if f"{group_names.full_sample_path}/data_type" in h5file:
+        data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+            "utf-8"
+        )
     elif f"{group_names.entry}/data_collection/data_type" in h5file:
         data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
             "utf-8"
-- 
2.43.0


From 497197c2463359810749ed6f7f583fbde6c247a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 56/67] fix: psi/delta NeXus files with wavelengths in units
 other than angstrom were scaled as angstrom

---
 src/elli/importer/nexus.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index c4e1abc..7a20eec 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -11,6 +11,7 @@ from typing import Callable, Optional
 import h5py
 import numpy as np
 import pandas as pd
+from pint import DimensionalityError, UndefinedUnitError
 
 if np.lib.NumpyVersion(np.__version__) < "2.0.0":
     from numpy.lib.index_tricks import IndexExpression
@@ -22,6 +23,7 @@ from elli.dispersions.table_epsilon import TableEpsilon
 from elli.dispersions.table_index import Table
 from elli.materials import BiaxialMaterial, IsotropicMaterial, UniaxialMaterial
 
+from ..units import ureg
 from ..utils import calc_rho, conversion_wavelength_energy
 
 
@@ -61,6 +63,19 @@ def read_nexus_psi_delta(
         and the wavelength as second column.
     """
 
+    def read_wavelength(dataset: h5py.Dataset):
+        unit = dataset.attrs.get("units", "angstrom")
+        if isinstance(unit, bytes):
+            unit = unit.decode("utf-8")
+
+        wavelength = np.array(dataset)
+        try:
+            if ureg.Quantity(1, unit) != ureg.angstrom:
+                return ureg.Quantity(wavelength.astype(float), unit).to("nm").magnitude
+        except (UndefinedUnitError, DimensionalityError):
+            pass  # Without a usable unit the wavelengths are taken to be in angstrom
+        return wavelength / 10
+
     def read_data(
         wavelength_path: str,
         aois_path: str,
@@ -68,7 +83,7 @@ def read_nexus_psi_delta(
         indexing: Callable[[int, int], IndexExpression],
     ):
         aois = np.array(h5file[aois_path])
-        wavelength = np.array(h5file[wavelength_path]) / 10
+        wavelength = read_wavelength(h5file[wavelength_path])
         psi_delta_df = pd.DataFrame(
             {},
             columns=["Ψ", "Δ"],
-- 
2.43.0


From 3713b45ab7394734db6daccb1d004168af240bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 57/67] fix: psi/delta NeXus files stayed open after errors
 while reading

---
 src/elli/importer/nexus.py | 54 +++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 7a20eec..128c3dc 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -128,35 +128,35 @@ def read_nexus_psi_delta(
     if group_names is None:
         group_names = NexusGroupNames()
 
-    h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.full_sample_path}/data_type" in h5file:
-        data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
-            "utf-8"
-        )
-    elif f"{group_names.entry}/data_collection/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
-            "utf-8"
-        )
-    else:
-        raise ValueError(
-            "Could not resolve a proper definition "
-            f"from the provided nexus file: {nxs_filename}"
-        )
+    with h5py.File(nxs_filename, "r") as h5file:
+        if f"{group_names.full_sample_path}/data_type" in h5file:
+            data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+                "utf-8"
+            )
+        elif f"{group_names.entry}/data_collection/data_type" in h5file:
+            data_type = h5file[f"{group_names.entry}/data_collection/data_type"][
+                ()
+            ].decode("utf-8")
+        else:
+            raise ValueError(
+                "Could not resolve a proper definition "
+                f"from the provided nexus file: {nxs_filename}"
+            )
 
-    # Currently, the appdef version can only be determined
-    # reliably by the case in the data_type field.
-    def_mapping = {
-        "psi/delta": read_legacy,
-        "Psi/Delta": read_nx_opt_def,
-    }
-
-    if data_type not in def_mapping:
-        raise NotImplementedError(
-            f"Unsupported data type: {data_type}. "
-            "Only 'psi/delta' values are supported yet."
-        )
+        # Currently, the appdef version can only be determined
+        # reliably by the case in the data_type field.
+        def_mapping = {
+            "psi/delta": read_legacy,
+            "Psi/Delta": read_nx_opt_def,
+        }
+
+        if data_type not in def_mapping:
+            raise NotImplementedError(
+                f"Unsupported data type: {data_type}. "
+                "Only 'psi/delta' values are supported yet."
+            )
 
-    return def_mapping.get(data_type)()
+        return def_mapping.get(data_type)()
 
 
 def read_nexus_rho(nxs_filename: str) -> pd.DataFrame:
-- 
2.43.0


From a78df82194fa592afb4ac0a3e32bd90159dec8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 58/67] fix: NeXus files with attributes stored as strings of
 fixed length were not understood

---
 src/elli/importer/nexus.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 128c3dc..f646c1a 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -46,6 +46,12 @@ class NexusGroupNames:
         return f"{self.entry}/{self.sample}"
 
 
+def _text_attribute(node, name: str, default: str = "") -> str:
+    """Get a text attribute, which may be stored as string of variable or fixed length"""
+    value = node.attrs.get(name, default)
+    return value.decode("utf-8") if isinstance(value, bytes) else str(value)
+
+
 def read_nexus_psi_delta(
     nxs_filename: str, group_names: Optional[NexusGroupNames] = None
 ) -> pd.DataFrame:
@@ -64,10 +70,7 @@ def read_nexus_psi_delta(
     """
 
     def read_wavelength(dataset: h5py.Dataset):
-        unit = dataset.attrs.get("units", "angstrom")
-        if isinstance(unit, bytes):
-            unit = unit.decode("utf-8")
-
+        unit = _text_attribute(dataset, "units", "angstrom")
         wavelength = np.array(dataset)
         try:
             if ureg.Quantity(1, unit) != ureg.angstrom:
@@ -186,11 +189,15 @@ def read_nexus_materials(filename: str):
         rep_params = {}
 
         def get_params(_: str, dataset: h5py.Dataset):
-            if dataset.attrs.get("NX_class", "") in ["NXdispersion_single_parameter"]:
+            if _text_attribute(dataset, "NX_class") in [
+                "NXdispersion_single_parameter"
+            ]:
                 param_name = dataset["name"][()].decode("utf-8")
                 single_params[param_name] = dataset["value"][()]
 
-            if dataset.attrs.get("NX_class", "") in ["NXdispersion_repeated_parameter"]:
+            if _text_attribute(dataset, "NX_class") in [
+                "NXdispersion_repeated_parameter"
+            ]:
                 param_name = dataset["name"][()].decode("utf-8")
                 rep_params[param_name] = dataset["values"][()]
 
@@ -199,7 +206,7 @@ def read_nexus_materials(filename: str):
             identifier = dataset["wavelength_identifier"][()].decode("utf-8")
             unit = (
                 f"{dataset['wavelength_unit'][()]} "
-                f"{dataset['wavelength_unit'].attrs.get('units', '')}"
+                f"{_text_attribute(dataset['wavelength_unit'], 'units')}"
             )
 
         if "energy_identifier" in dataset:
@@ -246,14 +253,14 @@ def read_nexus_materials(filename: str):
     def get_dispersion(dataset: h5py.Dataset):
         dispersion = None
         for data in dataset.values():
-            if data.attrs.get("NX_class") in ["NXdispersion_function"]:
+            if _text_attribute(data, "NX_class") in ["NXdispersion_function"]:
                 dispersion = (
                     get_dispersion_function(data)
                     if dispersion is None
                     else dispersion + get_dispersion_function(data)
                 )
 
-            if data.attrs.get("NX_class") in ["NXdispersion_table"]:
+            if _text_attribute(data, "NX_class") in ["NXdispersion_table"]:
                 dispersion = (
                     get_dispersion_table(data)
                     if dispersion is None
-- 
2.43.0


From 237f11592be52c1f7ed2fab09837c9c9eac90f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 59/67] fix: formula axis units with a factor other than one
 raised ValueError

---
 src/elli/dispersions/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index 14d3e41..8104905 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -73,12 +73,12 @@ class FormulaParser(BaseDispersion):
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
         if quantity.check("[length]"):
-            scaling = ureg("nm").to(unit).magnitude
+            scaling = ureg("nm").to(quantity.units).magnitude / quantity.magnitude
             self._axis_conversion = lambda lbda: scaling * lbda
             return
 
         if quantity.check("[energy]"):
-            scaling = ureg("nm").to(unit).magnitude
+            scaling = ureg("nm").to(quantity.units).magnitude / quantity.magnitude
             self._axis_conversion = lambda lbda: scaling / lbda
             return
 
-- 
2.43.0


From 7c2bc34139159c679a59c5a3040ab21e8a183ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 60/67] fix: searching the material database lost entries with
 missing fields

---
 src/elli/database/refractive_index_info.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..c466da2 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,14 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = np.logical_or(
+                            index, (self.catalog[col] == s).fillna(False)
+                        )
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = np.logical_or(
+                        index, (self.catalog[col] == q).fillna(False)
+                    )
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From 4973394eb556f23daf8efcffaed0999a17f47c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 61/67] fix: coefficients of database formulas were only read
 as several numbers separated by single blanks

---
 src/elli/database/refractive_index_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index c466da2..29bae27 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -337,7 +337,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 1":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -350,7 +350,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 2":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -363,7 +363,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 3":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
@@ -376,7 +376,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 4":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, 6, 4)]
                 e1 = coeffs[slice(2, 7, 4)]
@@ -398,7 +398,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 5":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
-- 
2.43.0


From e8575dd743c7dad35f47ed911f1ee131ee45baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 62/67] fix: the catalog of the material database took the
 second of two wavelength ranges of a page

---
 src/elli/database/refractive_index_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 29bae27..b9ba40f 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -101,7 +101,7 @@ class RII:
             r"(?P<authors>.*) "
             r"(?P<year>\d{4})[^:]*?: "
             r"((?P<comment1>.*); )?"
-            r"(?P<type1>.+) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
+            r"(?P<type1>.+?) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
             r"(, (?P<type2>.+) (?P<lower_range2>\d+(\.\d*)?(e\W?\d+)?).(?P<upper_range2>\d+(\.\d*)?(e\W?\d+)?) µm)?"
             r"(; (?P<comment2>.*))?"
         )
-- 
2.43.0


From 695cd7347edecf64b6b5e0dbd6e5c4eb404cca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:24 +0000
Subject: [PATCH 63/67] fix: Tauc-Lorentz oscillators with C >= 2 E had a
 spurious imaginary part or were not a number

---
 src/elli/dispersions/tauc_lorentz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/tauc_lorentz.py b/src/elli/dispersions/tauc_lorentz.py
index e93182f..31db561 100644
--- a/src/elli/dispersions/tauc_lorentz.py
+++ b/src/elli/dispersions/tauc_lorentz.py
@@ -35,13 +35,14 @@ class TaucLorentz(Dispersion):
     @staticmethod
     def eps1(E, Eg, Ai, Ei, Ci):
         gamma2 = sqrt(Ei**2 - Ci**2 / 2) ** 2
-        alpha = sqrt(4 * Ei**2 - Ci**2)
+        # Imaginary for Ci > 2 Ei. The limit for Ci = 2 Ei is finite.
+        alpha = sqrt(4 * Ei**2 - Ci**2) or 1e-6 * Ei
         aL = (Eg**2 - Ei**2) * E**2 + Eg**2 * Ci**2 - Ei**2 * (Ei**2 + 3 * Eg**2)
         aA = (E**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * Ci**2
         zeta4 = (E**2 - gamma2) ** 2 + alpha**2 * Ci**2 / 4
 
         # fmt: off
-        return (
+        eps1 = (
             Ai*Ci*aL/2.0/np.pi/zeta4/alpha/Ei*np.log((Ei**2 + Eg**2 + alpha*Eg)/(Ei**2 + Eg**2 - alpha*Eg)) - \
             Ai*aA/np.pi/zeta4/Ei*(np.pi - np.arctan((2.0*Eg + alpha)/Ci) + np.arctan((alpha - 2.0*Eg)/Ci)) + \
             2.0*Ai*Ei*Eg/np.pi/zeta4/alpha*(E**2 - gamma2)*(np.pi + 2.0*np.arctan(2.0/alpha/Ci*(gamma2 - Eg**2))) - \
@@ -50,6 +51,8 @@ class TaucLorentz(Dispersion):
             np.log(abs(E - Eg) * (E + Eg) / sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
         )
         # fmt: on
+        # For imaginary alpha the branch of arctan may add an imaginary part.
+        return np.real(eps1)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         energy = conversion_wavelength_energy(lbda)
-- 
2.43.0


From beee4d78e51a3c4ee22ba49ed94db9c525b48e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 64/67] fix: the Tauc-Lorentz permittivity was not a number
 exactly at the band gap

---
 src/elli/dispersions/tauc_lorentz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/tauc_lorentz.py b/src/elli/dispersions/tauc_lorentz.py
index 31db561..6fe6e34 100644
--- a/src/elli/dispersions/tauc_lorentz.py
+++ b/src/elli/dispersions/tauc_lorentz.py
@@ -4,6 +4,7 @@
 import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
+from scipy.special import xlogy
 
 from ..utils import conversion_wavelength_energy
 from .base_dispersion import Dispersion
@@ -41,14 +42,15 @@ class TaucLorentz(Dispersion):
         aA = (E**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * Ci**2
         zeta4 = (E**2 - gamma2) ** 2 + alpha**2 * Ci**2 / 4
 
+        # The logarithms of abs(E - Eg) are combined: their sum is finite for E = Eg.
         # fmt: off
         eps1 = (
             Ai*Ci*aL/2.0/np.pi/zeta4/alpha/Ei*np.log((Ei**2 + Eg**2 + alpha*Eg)/(Ei**2 + Eg**2 - alpha*Eg)) - \
             Ai*aA/np.pi/zeta4/Ei*(np.pi - np.arctan((2.0*Eg + alpha)/Ci) + np.arctan((alpha - 2.0*Eg)/Ci)) + \
             2.0*Ai*Ei*Eg/np.pi/zeta4/alpha*(E**2 - gamma2)*(np.pi + 2.0*np.arctan(2.0/alpha/Ci*(gamma2 - Eg**2))) - \
-            Ai*Ei*Ci*(E**2 + Eg**2)/np.pi/zeta4/E*np.log(abs(E - Eg)/(E + Eg)) + \
+            Ai*Ei*Ci/np.pi/zeta4/E*(xlogy((E - Eg)**2, abs(E - Eg)) - (E + Eg)**2*np.log(E + Eg)) - \
             2.0*Ai*Ei*Ci*Eg/np.pi/zeta4 * \
-            np.log(abs(E - Eg) * (E + Eg) / sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
+            np.log(sqrt((Ei**2 - Eg**2)**2 + Eg**2 * Ci**2))
         )
         # fmt: on
         # For imaginary alpha the branch of arctan may add an imaginary part.
-- 
2.43.0


From 41b0a132cbc01181dcfeed59c71055cdf15f5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 65/67] fix: index profiles along other directions than x were
 zero

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 110cf6c..4fd8caf 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -32,7 +32,7 @@ def get_index_profile(structure, lbda, v=E_X):
     """
     profile = get_permittivity_profile(structure, lbda)
     (h, epsilon) = list(zip(*profile))  # unzip
-    n = [sqrt((v.T * eps * v)[0, 0, 0]) for eps in epsilon]
+    n = [sqrt(v @ eps[0] @ v) for eps in epsilon]
     return list(zip(h, n))
 
 
-- 
2.43.0


From 3089fe189911e6deda7672015edf4cfc30d1632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:38 +0000
Subject: [PATCH 66/67] fix: opaque layers overflowed in the 2x2 solver

---
 src/elli/solver2x2.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/elli/solver2x2.py b/src/elli/solver2x2.py
index b7ed856..b125685 100644
--- a/src/elli/solver2x2.py
+++ b/src/elli/solver2x2.py
@@ -82,12 +82,18 @@ class Solver2x2(Solver):
         Ms = np.array([[ones, rs], [rs, ones]], dtype=complex) / ts
         Mp = np.array([[ones, rp], [rp, ones]], dtype=complex) / tp
 
+        attenuation = ones
+
         for i in range(1, num_layers - 1):
             rs, rp, ts, tp = Solver2x2.fresnel(
                 n_list[i], n_list[i + 1], th_list[i], th_list[i + 1]
             )
-            em = np.exp(-1j * delta[i - 1])
-            ep = np.exp(1j * delta[i - 1])
+            # The growing exponential of an absorbing layer is split off,
+            # since it overflows for opaque layers.
+            decay = np.abs(np.imag(delta[i - 1]))
+            em = np.exp(-1j * delta[i - 1] - decay)
+            ep = np.exp(1j * delta[i - 1] - decay)
+            attenuation = attenuation * np.exp(-decay)
 
             Ms = np.einsum(
                 esum, Ms, np.array([[em, rs * em], [rs * ep, ep]], dtype=complex) / ts
@@ -97,9 +103,9 @@ class Solver2x2(Solver):
             )
 
         rtots = Ms[1, 0] / Ms[0, 0]
-        ttots = 1 / Ms[0, 0]
+        ttots = attenuation / Ms[0, 0]
         rtotp = Mp[1, 0] / Mp[0, 0]
-        ttotp = 1 / Mp[0, 0]
+        ttotp = attenuation / Mp[0, 0]
 
         zeros = np.repeat(0, n_list.shape[1]) if n_list.ndim > 1 else 1
 
-- 
2.43.0


From 27a999eb2098c186916f57b0a100e8c151599b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:01 +0000
Subject: [PATCH 67/67] fix: saving a psi/delta fit to a csv file was refused

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 83d8179..d7e9a3e 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -93,7 +93,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0

