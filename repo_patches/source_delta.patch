From 1d652f0984294e0b2b10d8e11c03958baf5871b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 01/31] fix: Expectation keeps every variable of a mixed
 derivative or multiple integral

---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 5bbc1cf7c1d691f8d6aad29b3cd270a1e1321908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/31] fix: latex printing of a power of an Expectation

---
 src/sympkf/symbolic/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index f66478d..bab8264 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -150,7 +150,7 @@ class Expectation(Function):
         pattern = [elm  for elm in pattern if not elm == omega]        
         return self.args[0].has(*pattern)
 
-    def _latex(self, printer):
+    def _latex(self, printer, exp=None):
         """
         Make the latex printing with standard \\mathbb E notation.
         :param printer:
@@ -167,7 +167,8 @@ class Expectation(Function):
             '\\mathbb E\\left(X{\\left(\\omega \\right)}\\right)'
 
         """
-        return self._latex_name+ r"\left(%s\right)" % printer._print(self.args[0])
+        tex = self._latex_name+ r"\left(%s\right)" % printer._print(self.args[0])
+        return tex if exp is None else r"%s^{%s}" % (tex, exp)
 
 
 class IncoherentEquality(Exception): pass
-- 
2.43.0


From 44bf1da5ccf6aedb4e28e705ce8db575a9c329df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 03/31] fix: Burgers() raised NameError, the class defined by
 exec was not visible

---
 src/sympkf/dynamics/burgers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..c4e5f57 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -29,6 +29,7 @@ class Burgers(object):
 
     def __init__(self, n=241):
         def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
+            namespace = {}
+            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+            return namespace['ClosedPKFBurgers']
         self.model = factory()(shape=(n,))
-- 
2.43.0


From 1cd98b76c779d21f072278b4dda2549ef41df2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/31] fix: SymbolicPKF no longer shares (and updates) the
 closure dictionary of the caller

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..dd5d0c2 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From 750f97186025c505c52ad428f526951a30778756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 05/31] fix: do not change the dictionary of univariate terms
 while iterating over it

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index dd5d0c2..3bd25a2 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -799,7 +799,7 @@ class SymbolicPKF(object):
         univariates = self.check_univariate(rhs)
 
         # -2- Retain epsilon's that are in self.fields !!
-        for epsilon in univariates:
+        for epsilon in list(univariates):
             if epsilon not in epsilon_to_mfields:
                 univariates.pop(epsilon)
 
-- 
2.43.0


From 74473dab3ef668a63d228b57fc7c981bf4fd7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 06/31] fix: compare sympy objects by equality, identity
 depends on the sympy cache

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 3bd25a2..c8f22d7 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -870,12 +870,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -885,7 +885,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -923,7 +923,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From 0734bce4a45dc198badb1798d17d0fa714e0a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 07/31] fix: in_diffusion contains the cross-covariance
 dynamics, as in_metric and in_aspect do

---
 src/sympkf/symbolic/pkfcas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index c8f22d7..b9e84b2 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,12 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+            systems = [self.expectation_system, self.variance_system, self.cross_covariance_system]
+            for system in systems:
+
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
+
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From 7dfe61b7700e9c95901ceed7d1600a9d4bbda707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 08/31] fix: get_covariance(f1,f2) and get_covariance(f2,f1)
 are the same function

---
 src/sympkf/symbolic/pkfcas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index b9e84b2..d8aa418 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -725,6 +725,9 @@ class SymbolicPKF(object):
     
     def get_covariance(self, f1, f2):
         if all([field in self.fields for field in [f1,f2]]):
+            # The covariance is symmetric: label it in the order of the fields
+            f1, f2 = [field for field in self.fields if field in (f1,f2)] if f1 != f2 else (f1,f2)
+
             # 1. Get associated metafields
             mf1 = self.fields[f1]
             mf2 = self.fields[f2]
-- 
2.43.0


From e9142559ef555adb878ec1c1f32224013b707c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 09/31] fix: curvature of the local Gaussian correlation
 written in metric tensor

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d8aa418..73995ce 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1472,7 +1472,7 @@ class LocGaussianClosure(Closure):
 
         if metric:
             gux = self.metric.subs(cpx)
-            dot_prod = dxy.T @ gux @ dxy
+            dot_prod = Rational(1 , 2) * dxy.T @ gux @ dxy
         else:
             sx = self.aspect.subs(cpx)
             dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
-- 
2.43.0


From bd97423185ab33e79407d68f231c49e16532321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 10/31] fix: the advected field and the wind of the shipped 1D
 advection have different names

---
 src/sympkf/symbolic/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/dynamics.py b/src/sympkf/symbolic/dynamics.py
index 6f00fa2..3e0a453 100644
--- a/src/sympkf/symbolic/dynamics.py
+++ b/src/sympkf/symbolic/dynamics.py
@@ -25,7 +25,7 @@ diffusion = PDESystem(
         )
 
 
-c = Function('u')(t,x)
+c = Function('c')(t,x)
 u = Function('u')(x)
 
 advection = PDESystem(
-- 
2.43.0


From cd39312f4214e41f84fe0e4cd89d08134cd5d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 11/31] fix: make_M returns the propagator with the image of
 e_i as i-th column

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..2e58d3b 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -314,7 +314,7 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            M = np.asarray(M).T
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From 5509d230c14b50b33bba2a934b05bb8f78b33be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 12/31] fix: accept any scalar saved time

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index 2e58d3b..47bf9ea 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -287,7 +287,7 @@ class Model(object):
     def _check_saved_times(window, saved_times):
         if saved_times is None:
             saved_times = window
-        elif type(saved_times)==float or type(saved_times)==np.float64:
+        elif np.isscalar(saved_times):
             saved_times = [saved_times]
         return saved_times
 
-- 
2.43.0


From 0613125590b279cdc394615b66aefc68b056fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 13/31] fix: models on manifold honour the time scheme given at
 construction

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From 46a27faac62d2c95efad332513f9e9daff1ccef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 14/31] fix: mesh arrays X have the layout of the state

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..89cc0ae 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing='ij')
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From 41e920b0a8ffbbc042e2d54f3f46fe46d8ae8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 15/31] fix: closure terms do not depend on the previous
 queries of the Closure

---
 src/sympkf/symbolic/pkfcas.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 73995ce..d9629c2 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1306,8 +1306,7 @@ class Closure(object):
         self.metric = mfield.metric
         self.diffusion = mfield.diffusion
         self.aspect = mfield.aspect
-        self._order = 0
-        self._taylor = None
+        self._taylor = {}
         self._in_metric = None
         self._in_diffusion = None
         self._in_aspect = None
@@ -1360,7 +1359,7 @@ class Closure(object):
 
     def taylor(self, order):
         """ Compute the Taylor expansion until degree 'order' """
-        if self._order < order:
+        if order not in self._taylor:
             px = self._x
             py = tuple([xi + dxi for xi, dxi in zip(self._x, self._dx)])
             taylor = self.correlation(px, py)
@@ -1368,10 +1367,9 @@ class Closure(object):
                 taylor = taylor.series(dxi, 0, order).removeO()
                 taylor = remove_eval_derivative(taylor)
 
-            self._taylor = taylor
-            self._order = order
+            self._taylor[order] = taylor
 
-        return self._taylor
+        return self._taylor[order]
 
     def closure_by_order(self, order):
         """
@@ -1380,8 +1378,9 @@ class Closure(object):
         :return: a
         """
         order = order + 1
-        if self._order < order:
+        if order not in self._closure_by_order:
             # 1. Compute terms until order
+            closure_by_order = {}
             factorial = 1
             for partial_order in range(order):
 
@@ -1401,12 +1400,14 @@ class Closure(object):
                     # -2- Extract coefficient of dx^alpha in taylor expansion
                     term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
                     closure[term] = Integer(factorial) * coeff_alpha
-                self._closure_by_order[partial_order] = closure
+                closure_by_order[partial_order] = closure
 
-            # 2. Update the order
-            self._order = order
+            # 2. Save the terms of this order
+            self._closure_by_order[order] = closure_by_order
 
-        return self._closure_by_order
+        # Copies: the stored terms do not change when the caller updates the result
+        return {partial_order: dict(closure)
+                for partial_order, closure in self._closure_by_order[order].items()}
 
     def closure(self, order):
         closure = {}
-- 
2.43.0


From aa8f3cefd0c2ccb12321448127e970978928c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 16/31] fix: Taylor coefficient of dx^alpha is the derivative
 divided by alpha!, not by |alpha|!

---
 src/sympkf/symbolic/pkfcas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d9629c2..a4f3e2d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1381,25 +1381,23 @@ class Closure(object):
         if order not in self._closure_by_order:
             # 1. Compute terms until order
             closure_by_order = {}
-            factorial = 1
             for partial_order in range(order):
 
                 partial_order = int(partial_order)
                 closure = {}
 
-                if partial_order != 0:
-                    factorial *= partial_order
-
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
                     coeff_alpha = self.taylor(order).expand()
+                    factorial = Integer(1) # alpha! = alpha_1! alpha_2! ..
                     for xi, dxi in zip(self._x,self._dx):
                         alpha_i = alpha.as_sequence.count(xi)
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
+                        factorial *= sympy.factorial(alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
                     term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
-                    closure[term] = Integer(factorial) * coeff_alpha
+                    closure[term] = factorial * coeff_alpha
                 closure_by_order[partial_order] = closure
 
             # 2. Save the terms of this order
-- 
2.43.0


From 9898f691ce59ec32dd99ec2955a6500be4fa3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 17/31] fix: indexes of the metric components in
 Closure.in_metric_by_order for dimensions greater than one

---
 src/sympkf/symbolic/pkfcas.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index a4f3e2d..f81bcc9 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1429,10 +1429,7 @@ class Closure(object):
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
             subs_closure_by_order[second_order][term] = subs_term
             # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+            i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
 
             g_dico[term] = -self.mfield.metric_func(i, j)
             s_dico[term] = self.mfield.aspect_func(i, j)
-- 
2.43.0


From 93b690ce6e71e8002e3bdc217fa073c913224a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 18/31] fix: coordinates with a latex name lead to valid code,
 with the names of the tuple coordinates

---
 src/sympkf/symbolic/finite_difference.py | 7 ++++---
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..7053900 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -350,6 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :return:
     """
     from sympy import Function
+    from .tool import clean_latex_name
 
 
     code = str(finite)
@@ -368,7 +369,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     # -2- Replace dx's
     for x_dx in loc_x_dx:
         xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
+        code = code.replace(str(dxi), dx_coding_rule(clean_latex_name(xi)))
 
     return code
 
@@ -450,7 +451,7 @@ class Code(object):
             for k, step in enumerate(displacement):
                 assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-                code += self.slice_coding_rule(f"'{x[k]}'", step) + ','
+                code += self.slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
             # Suffix for closing array
             code = code[:-1]
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..de52227 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
-- 
2.43.0


From 55286e9b5fc02f1211054b3f3ead76ee31c53e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 19/31] fix: replace grid steps in the finite difference code
 whatever the order of the coordinates

---
 src/sympkf/symbolic/finite_difference.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 7053900..4b27ace 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -1,4 +1,5 @@
 from .util import Eq, get_function_coordinates, get_total_order
+import re
 import warnings
 
 def get_subs_derivative(derivative):
@@ -367,9 +368,11 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
         code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
 
     # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(clean_latex_name(xi)))
+    #     in a single pass so that neither a part of a name nor a replaced code is replaced
+    rules = {str(dxi): dx_coding_rule(clean_latex_name(xi)) for xi, dxi in loc_x_dx}
+    if rules:
+        pattern = '|'.join(re.escape(name) for name in sorted(rules, key=len, reverse=True))
+        code = re.sub(rf'(?<!\w)(?:{pattern})(?!\w)', lambda match: rules[match.group()], code)
 
     return code
 
-- 
2.43.0


From 0cdf5661d0aa0746e7d2f3768a18d71c58d60232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 20/31] fix: coordinates whose name starts with d are not
 exchanged with their differential form

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..38e1d03 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -394,7 +394,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -436,7 +436,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From d5033f277dc51ca3b4bfb8c4838653462193b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 21/31] fix: names that are python keywords lead to valid code

---
 src/sympkf/symbolic/tool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 758cfbc..128f0a9 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,5 @@
+import keyword
+
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
@@ -17,4 +19,8 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
+    # -5- A python keyword (e.g. `lambda` from `\\lambda`) is not a valid variable name
+    if keyword.iskeyword(label):
+        label += '_'
+
     return label
-- 
2.43.0


From c8c499cc95276727f3887424b36eb90097afc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 22/31] fix: subs/doit/expand of an equation that becomes true
 or false raised TypeError

---
 src/sympkf/symbolic/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 38e1d03..4b6d373 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -132,15 +132,15 @@ class Eq(sympy.Eq):
 
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From 73d0bb7607333c866e1c0386026b2b37cf7f55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 23/31] fix: the generated code (hence the layout of the state)
 does not depend on the order of the sets

---
 src/sympkf/symbolic/model_builder.py | 16 ++++++++++------
 src/sympkf/symbolic/util.py          |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index de52227..67670af 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -1,4 +1,4 @@
-from sympy import Eq
+from sympy import Eq, default_sort_key
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
 from jinja2 import Template
@@ -148,7 +148,7 @@ class ModelBuilder(object):
     def functions(self):
         if self._functions is None:
             self._functions = [MetaFunction(function, index)
-                               for index, function in enumerate(self.pde_system.functions)]
+                               for index, function in enumerate(sorted(self.pde_system.functions, key=default_sort_key))]
         return self._functions
 
     @property
@@ -193,27 +193,31 @@ class ModelBuilder(object):
     def constant_functions(self):
         if self._constant_functions is None:
             self._constant_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.constant_functions)]
+                                        for index, function in enumerate(sorted(self.pde_system.constant_functions,
+                                                                           key=default_sort_key))]
         return self._constant_functions
 
     @property
     def exogenous_functions(self):
         if self._exogenous_functions is None:
             self._exogenous_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.exogenous_functions)]
+                                        for index, function in enumerate(sorted(self.pde_system.exogenous_functions,
+                                                                            key=default_sort_key))]
         return self._exogenous_functions
 
     @property
     def constants(self):
         if self._constants is None:
-            self._constants = [self._create_meta_constant(constant) for constant in self.pde_system.constants]
+            self._constants = [self._create_meta_constant(constant) 
+                               for constant in sorted(self.pde_system.constants, key=default_sort_key)]
         return self._constants
 
     @property
     def spatial_derivatives(self):
         if self._spatial_derivatives is None:
             self._spatial_derivatives = [self._create_meta_derivative(derivative)
-                                         for derivative in self.pde_system.spatial_derivatives]
+                                         for derivative in sorted(self.pde_system.spatial_derivatives,
+                                                              key=default_sort_key)]
         return self._spatial_derivatives
 
     @property
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 4b6d373..6c56e2e 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -252,7 +252,7 @@ class PDESystem(object):
 
         for equation in self.equations:
             derivatives = equation.atoms(Derivative)
-            for derivative in derivatives:
+            for derivative in sorted(derivatives, key=sympy.default_sort_key):
                 coordinates = derivative.args[1].atoms(Symbol)
                 if self._time_symbol in coordinates:
                     prognostic_functions.append(derivative.args[0])
-- 
2.43.0


From e4ebad43122f85bcf1d06fa273582c9bfa78dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 24/31] fix: keep derived systems only once they are completely
 computed

internal_closure and cross_covariance_system were stored empty then filled: when
the computation failed (e.g. fields of different coordinates) the next query
returned the incomplete result instead of failing.
---
 src/sympkf/symbolic/pkfcas.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index f81bcc9..7a9db17 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -364,7 +364,7 @@ class SymbolicPKF(object):
         
 
             # Set the cross-covariance meta-data and compute the cros-covariance dynamics 
-            self._cross_covariance_system = []
+            cross_covariance_system = []
             
             for couple in self.multivariate_couples:
                 # 1) Extract fields and meta-data
@@ -385,7 +385,10 @@ class SymbolicPKF(object):
                 rhs = self._apply_internal_closure(rhs)                
 
                 # 4) update of the cross-covariance system
-                self._cross_covariance_system.append( Eq(lhs,rhs.expand()) )
+                cross_covariance_system.append( Eq(lhs,rhs.expand()) )
+
+            # Only keep the system once it is complete
+            self._cross_covariance_system = cross_covariance_system
                 
             return self._cross_covariance_system
 
@@ -694,11 +697,11 @@ class SymbolicPKF(object):
     def internal_closure(self):
         if self._internal_closure is None:
 
-            self._internal_closure = {}
+            internal_closure = {}
 
             # 1. Set univariate closure
             for meta_field in self.fields.values():
-                self._internal_closure.update(meta_field.internal_closure)
+                internal_closure.update(meta_field.internal_closure)
             
             # 2. Set multivariate closure (only in multivariate situations)           
             for couple in self.multivariate_couples:
@@ -718,8 +721,11 @@ class SymbolicPKF(object):
                 V12 = self.get_covariance(f1,f2)
 
                 # 3.c) Update internal closure
-                self._internal_closure[Expectation(e1*e2)] = V12
-                self._internal_closure[Expectation(eps1*eps2)] = V12/(std1*std2)
+                internal_closure[Expectation(e1*e2)] = V12
+                internal_closure[Expectation(eps1*eps2)] = V12/(std1*std2)
+
+            # Only keep the closure once it is complete
+            self._internal_closure = internal_closure
 
         return self._internal_closure
     
-- 
2.43.0


From 313bf4b7e1e5734f0c3d0b177d07e2d819bf90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 25/31] fix: replace all the known statistics of the normalised
 error in the mean dynamics

---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 7a9db17..a642304 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -165,8 +165,8 @@ class SymbolicPKF(object):
                 equation = Expectation(equation)
                 # 2) Substitute error in Variance/Corrélation
                 equation = equation.subs(subs_error).doit().expand()
-                # 3) Apply internal closure
-                equation = equation.subs(self.internal_closure).doit()
+                # 3) Apply internal closure (including terms E[D^alpha eps D^beta eps])
+                equation = self._apply_internal_closure(equation).doit()
 
                 expectation_system.append(equation)
 
-- 
2.43.0


From f8aead2aa6766991327620dae4517ce6f9ecec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 26/31] fix: finite difference code of functions whose name
 ends with the name of another one

---
 src/sympkf/symbolic/finite_difference.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 4b27ace..ff4f43f 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -350,7 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function
+    from sympy.core.function import AppliedUndef
     from .tool import clean_latex_name
 
 
@@ -358,18 +358,22 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
 
 
     loc_x_dx = []
+    rules = {}
 
-    # -1- Replace functions
-    for function in finite.atoms(Function):
+    # -1- Code of the functions
+    for function in finite.atoms(AppliedUndef):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
             if (xi,dxi) not in loc_x_dx:
                 loc_x_dx.append((xi,dxi))
-        code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
+        rules[str(function)] = code_regular_function(function, slice_coding_rule)
+
+    # -2- Code of the dx's
+    for xi, dxi in loc_x_dx:
+        rules[str(dxi)] = dx_coding_rule(clean_latex_name(xi))
 
-    # -2- Replace dx's
+    # -3- Replace functions and dx's
     #     in a single pass so that neither a part of a name nor a replaced code is replaced
-    rules = {str(dxi): dx_coding_rule(clean_latex_name(xi)) for xi, dxi in loc_x_dx}
     if rules:
         pattern = '|'.join(re.escape(name) for name in sorted(rules, key=len, reverse=True))
         code = re.sub(rf'(?<!\w)(?:{pattern})(?!\w)', lambda match: rules[match.group()], code)
-- 
2.43.0


From 884d3f3d2eeb7970a33cd72ba055a9649216917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:07 +0000
Subject: [PATCH 27/31] fix: order of the two derivatives of a univariate term
 was the one of a set

---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index a642304..b9e46dc 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -5,7 +5,7 @@ from .constants import t as time_symbol
 import collections
 
 
-from sympy import Derivative, symbols, Function, sqrt, Integer, Rational, Mul, Matrix
+from sympy import Derivative, symbols, Function, sqrt, Integer, Rational, Mul, Matrix, default_sort_key
 import sympy
 
 omega = symbols('omega')
@@ -905,7 +905,7 @@ class UnivariateTerm(object):
                     for derivative in derivatives:
                         degree += derivative.derivative_count
                     # -2- Extract the two derivatives
-                    alpha, beta = derivatives
+                    alpha, beta = sorted(derivatives, key=default_sort_key)
                     alpha = alpha.args[1:]
                     beta = beta.args[1:]
                     return cls(term, function, alpha, beta, degree)
-- 
2.43.0


From 3bff3ecd73f2ec41e74512097871d19cc6a86cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:07 +0000
Subject: [PATCH 28/31] fix: summary of a system of equations listed its
 functions and constants in the order of sets

---
 src/sympkf/symbolic/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 6c56e2e..fc4d6bd 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -216,11 +216,15 @@ class PDESystem(object):
         prognostic_functions = ", ".join([str(function)
                                           for function in self.prognostic_functions])
         exogenous_functions = ", ".join([str(function)
-                                         for function in self.exogenous_functions])
+                                         for function in sorted(self.exogenous_functions,
+                                                                key=sympy.default_sort_key)])
         constant_functions = ", ".join([str(function)
-                                        for function in self.constant_functions])
-        constants = ", ".join([str(clean_latex_name(constant)) for constant in self.constants])
-        trainable_scalars = ",".join([str(clean_latex_name(constant)) for constant in self.trainable_scalars])
+                                        for function in sorted(self.constant_functions,
+                                                               key=sympy.default_sort_key)])
+        constants = ", ".join([str(clean_latex_name(constant))
+                               for constant in sorted(self.constants, key=sympy.default_sort_key)])
+        trainable_scalars = ",".join([str(clean_latex_name(constant))
+                                      for constant in sorted(self.trainable_scalars, key=sympy.default_sort_key)])
 
         string = f'''PDE System {name}:
         prognostic functions : {prognostic_functions}
-- 
2.43.0


From 44c0299de6edbf6b475e937325a4db777489f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:07 +0000
Subject: [PATCH 29/31] fix: derivatives of different orders were replaced in
 the order of a set

---
 src/sympkf/symbolic/finite_difference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index ff4f43f..5b8b732 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -91,8 +91,8 @@ def finite_difference_derivative(derivative):
         if derivatives == set():
             # if no derivative then exit loop !
             break
-        # -2- Replace all derivatives found above
-        for derivative in derivatives:
+        # -2- Replace all derivatives found above, by decreasing orders
+        for derivative in sorted(derivatives, key=get_total_order, reverse=True):
             subs_derivative = get_subs_derivative(derivative)
             expr = expr.subs(derivative, subs_derivative).expand()
 
@@ -176,8 +176,8 @@ def _sympy_finite_difference(expr):
         if derivatives == set():
             # if no derivative then exit loop !
             break
-        # -2- Replace all derivatives found above
-        for derivative in derivatives:
+        # -2- Replace all derivatives found above, by decreasing orders
+        for derivative in sorted(derivatives, key=get_total_order, reverse=True):
             # a) get first 'wrt' variable
             xi = derivative.args[1][0]
             dxi = symbols('d' + str(xi))
-- 
2.43.0


From 153c195b2ab6415ffb60434752e669b9b59b2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 30/31] fix: differential of a coordinate whose name has a
 comma, a colon or a space was a tuple of symbols

---
 src/sympkf/symbolic/finite_difference.py | 8 ++++----
 src/sympkf/symbolic/pkfcas.py            | 6 ++----
 src/sympkf/symbolic/util.py              | 8 ++++----
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 5b8b732..c69fecc 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -37,13 +37,13 @@ def get_subs_derivative(derivative):
         subs_derivative = Derivative(finite_diff, y,1)
 
     """
-    from sympy import Derivative, Integer, symbols
+    from sympy import Derivative, Integer, Symbol
     from numpy import arange
 
     # Get arguments from the derivative
     func_part = derivative.args[0]
     xi, oi = derivative.args[1]
-    dxi = symbols('d' + str(xi))    
+    dxi = Symbol('d' + str(xi))    
     
     # 1. Compute the finite difference of the derivation with respect to the first argument
     
@@ -166,7 +166,7 @@ def _sympy_finite_difference(expr):
         f(x+dx)/2*dx - f(x-dx)/2*dx
 
     """
-    from sympy import Derivative, symbols
+    from sympy import Derivative, Symbol
 
     expr = expr.doit()
 
@@ -180,7 +180,7 @@ def _sympy_finite_difference(expr):
         for derivative in sorted(derivatives, key=get_total_order, reverse=True):
             # a) get first 'wrt' variable
             xi = derivative.args[1][0]
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
             # b) substitute
             expr = expr.subs(derivative, derivative.as_finite_difference(dxi, wrt=xi)).expand()
 
diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index b9e46dc..9ec16c7 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -5,7 +5,7 @@ from .constants import t as time_symbol
 import collections
 
 
-from sympy import Derivative, symbols, Function, sqrt, Integer, Rational, Mul, Matrix, default_sort_key
+from sympy import Derivative, Symbol, symbols, Function, sqrt, Integer, Rational, Mul, Matrix, default_sort_key
 import sympy
 
 omega = symbols('omega')
@@ -1304,9 +1304,7 @@ class Closure(object):
         self.spatial_coordinates = mfield.spatial_coordinates
 
         self._x = self.spatial_coordinates
-        self._dx = symbols(' '.join([f"d{xi}" for xi in self.spatial_coordinates]))
-        if not isinstance(self._dx, tuple):
-            self._dx = (self._dx,)
+        self._dx = tuple(Symbol(f"d{xi}") for xi in self.spatial_coordinates)
 
         self.epsilon = mfield.epsilon
         self.metric = mfield.metric
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index fc4d6bd..5fc69b8 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -387,7 +387,7 @@ def get_coordinates(function):
         ([t,x,y],[dt,dx,dy])
 
     """
-    from sympy import Symbol, symbols
+    from sympy import Symbol
 
     x = []
     dx = []
@@ -402,7 +402,7 @@ def get_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
@@ -426,7 +426,7 @@ def get_function_coordinates(function):
         ([t,x,y],[dt,dx,dy])
 
     """
-    from sympy import Symbol, symbols
+    from sympy import Symbol
 
     if not isinstance(function, Function):
         raise ValueError("'function' should be a function")
@@ -444,7 +444,7 @@ def get_function_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
-- 
2.43.0


From ff109fd65b86d57d85f3f7aae70d0dc0b4972ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:13 +0000
Subject: [PATCH 31/31] fix: trend of a function named el or ef was a python
 keyword

---
 src/sympkf/symbolic/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 67670af..8da5441 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -27,7 +27,7 @@ class MetaPrognosticFunction(MetaFunction):
         self.trend = self._set_trend()
 
     def _set_trend(self):
-        return 'd'+self.as_keyvar
+        return clean_latex_name('d'+self.as_keyvar)
 
 
 class MetaDerivative(object):
-- 
2.43.0

