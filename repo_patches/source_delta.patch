From 6f267589ba3dd976731425f53ea6d085dea00839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 01/48] fix: setValue accepted a float given in an incoherent
 unit (operator precedence)

---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From d0d3c5a83a8d5040ec484e19d70fd8d7fe15e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 02/48] fix: arithmetic between Quantity objects always raised
 TypeError (missing name, no true division)

---
 src/sloth/core/quantity.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 3454266..5470876 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -157,7 +157,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value+other_obj.value)
+            new_obj = self.__class__(name = "", units = self.units, value = self.value+other_obj.value)
 
             return new_obj
 
@@ -184,7 +184,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value-other_obj.value)
+            new_obj = self.__class__(name = "", units = self.units, value = self.value-other_obj.value)
 
             return new_obj
 
@@ -206,7 +206,7 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units*other_obj.units, value = self.value*other_obj.value)
+        new_obj = self.__class__(name = "", units = self.units*other_obj.units, value = self.value*other_obj.value)
 
         return new_obj
 
@@ -224,10 +224,17 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units/other_obj.units, value = self.value/other_obj.value)
+        new_obj = self.__class__(name = "", units = self.units/other_obj.units, value = self.value/other_obj.value)
 
         return(new_obj)
 
+    def __truediv__(self, other_obj):
+        """
+        Overloaded function for division of two unit-containing-objects (Python 3 operator). See __div__.
+        """
+
+        return self.__div__(other_obj)
+
     def __pow__(self, power):
 
         """
@@ -243,6 +250,6 @@ class Quantity:  # New-style class syntax
 
         """
 
-        new_obj = self.__class__( units = self.units**power.value, value = self.value**power.value )
+        new_obj = self.__class__( name = "", units = self.units**power.value, value = self.value**power.value )
 
         return(new_obj)
-- 
2.43.0


From dad00bbe897c862b370272c02ad296f34eb549ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 03/48] fix: expressions nonlinear in their variables (p/x)
 were classified linear and products, powers and functions of derivatives lost
 the differential class

---
 src/sloth/core/equation_operators.py    |  6 ++++++
 src/sloth/core/expression_evaluation.py | 12 +++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..4e484c2 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -68,6 +68,12 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
 
                 enode_.equation_type = equation_type_
 
+                if obj.equation_type['is_differential'] == True:
+
+                    # A function of a derivative is still a differential expression
+
+                    enode_.equation_type = {**obj.equation_type}
+
                 return enode_
 
             else:
diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..564c21c 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -330,7 +330,7 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
@@ -423,15 +423,9 @@ class EquationNode:
 
                 enode_.equation_type = {**self.equation_type}
 
-            elif self.variable_map == {} and other_obj.variable_map != {}:
-
-                # current object is a specified Quantity
-
-                enode_.equation_type = {**other_obj.equation_type}
-
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
@@ -551,7 +545,7 @@ class EquationNode:
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
 
-                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
                 return(enode_)
 
-- 
2.43.0


From 3fe0c5efcfef858116544e95bc53ce8ced13a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 04/48] fix: elementary functions of a plain number raised
 NameError

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 4e484c2..6423dcf 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -46,7 +46,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From 87bf3283664252501c42c8a7d068e7d3f2f9bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 05/48] fix: Min/Max of expressions always raised, ignored
 incoherent dimensions and were classified linear

---
 src/sloth/core/equation_operators.py | 73 ++++++++++++++++------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 6423dcf..4b953c1 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -6,6 +6,7 @@ import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
 from .template_units import dimless
+from .error_definitions import UnexpectedValueError
 # import error_definitions as errors
 
 
@@ -132,6 +133,8 @@ def Min(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -164,10 +167,14 @@ def Min(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -184,27 +191,19 @@ def Min(*obj):
 
     latex_func_name+="\\right )"
 
-    if all(isinstance(obj_i, float) or isinstance(obj_i, int) for obj_i in obj):
+    enodes_ = [obj_i for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        obj_dims = dimless
+    if len(enodes_) == 0:
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
-
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
-
-            obj_dims = obj[0].unit_object
+        obj_dims = dimless
 
-        else:
+    elif all(obj_i.unit_object._check_dimensional_coherence(enodes_[0].unit_object) for obj_i in enodes_):
 
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+        obj_dims = enodes_[0].unit_object
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
-
-            obj_dims = dimless
+        raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
@@ -212,9 +211,17 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
+    if any(obj_i.equation_type['is_differential'] for obj_i in enodes_):
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':False, 'is_differential':True}
+
+    elif obj_var_map != {}:
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+
     return enode_
 
 def Max(*obj):
@@ -231,6 +238,8 @@ def Max(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -263,10 +272,14 @@ def Max(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -282,27 +295,19 @@ def Max(*obj):
     f_name += ")"
     latex_func_name+="\\right )"
 
-    if all(isinstance(obj_i, float) or isinstance(obj_i, int) for obj_i in obj):
+    enodes_ = [obj_i for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        obj_dims = dimless
+    if len(enodes_) == 0:
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
-
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
-
-            obj_dims = obj[0].unit_object
+        obj_dims = dimless
 
-        else:
+    elif all(obj_i.unit_object._check_dimensional_coherence(enodes_[0].unit_object) for obj_i in enodes_):
 
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+        obj_dims = enodes_[0].unit_object
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
-
-            obj_dims = dimless
+        raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
@@ -310,9 +315,17 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
+    if any(obj_i.equation_type['is_differential'] for obj_i in enodes_):
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':False, 'is_differential':True}
+
+    elif obj_var_map != {}:
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From 58c0615554ef5dea0a0a2cb7450df0898b66e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 06/48] fix: a dimensional expression raised to a specified
 quantity kept the dimension of its base

---
 src/sloth/core/expression_evaluation.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 564c21c..50bf352 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -535,12 +535,26 @@ class EquationNode:
 
                 #other_obj is dimensionless
 
+                if self.unit_object._is_dimensionless() == True:
+
+                    unit_object_ = self.unit_object**other_obj.unit_object
+
+                elif other_obj.variable_map == {}:
+
+                    # The exponent is known, so it also raises the dimensions of the base
+
+                    unit_object_ = self.unit_object**float(other_obj.symbolic_object)
+
+                else:
+
+                    raise DimensionalCoherenceError(self.unit_object, None)
+
                 enode_ = self.__class__(
                                     name="**".join([self.name, other_obj.name]),
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=unit_object_,
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
-- 
2.43.0


From 709ec2a6e24bc89843381c81fe2e5a269b9e7f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 07/48] fix: evaluating an equation at the current values of
 its objects always raised SympifyError

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..84ceb6e 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -427,7 +427,7 @@ class Equation:
 
         if symbolic_map == None:
 
-            symbolic_map_ = self.equation_expression.symbolic_map
+            symbolic_map_ = {k: obj_i.value for k, obj_i in self.equation_expression.symbolic_map.items()}
 
         else:
 
-- 
2.43.0


From ea86324d65263224f52cce0fa969948256b9bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 08/48] fix: setting the residual of an equation erased the
 record of the objects it uses

---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 84ceb6e..b7e73b4 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From 325c7af36160a3cf941976be52966f2d63359779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 09/48] fix: default compilation mechanism of an equation did
 not exist (documented default is numpy)

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index b7e73b4..a2f707c 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -226,7 +226,7 @@ class Equation:
 
             self.equation_form = "residual"
 
-    def _convertToFunction(self, symbolic_map=None, side=None, compilation_mechanism='llvm'):
+    def _convertToFunction(self, symbolic_map=None, side=None, compilation_mechanism='numpy'):
 
         """
         Convert the current equation expression into a function.
-- 
2.43.0


From 2c65ea7c8cf08956801711294e2171508ffa02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 10/48] fix: base 10 logarithms could not be compiled with
 numpy (base argument taken for the output array)

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 4b953c1..61874b3 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,7 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From a0bb479983a4d52a516ca0977a88e7c6812727c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 11/48] fix: incorporating a model with exposed variables or
 numeric equation sides raised, and incorporated expressions kept the unknowns
 of the external model

---
 src/sloth/core/equation.py | 14 ++++++++++----
 src/sloth/model.py         |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index a2f707c..88d5eee 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,17 +292,17 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).subs(names_map)
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
 
             try:
 
@@ -328,6 +328,10 @@ class Equation:
 
             elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_1}
 
+            elem_expr[0].variable_map = {names_map.get(k,k):whole_obj_map[names_map.get(k,k)] for k in elem_expr[0].variable_map}
+
+            elem_expr[1].variable_map = {names_map.get(k,k):whole_obj_map[names_map.get(k,k)] for k in elem_expr[1].variable_map}
+
             self.elementary_equation_expression = tuple(elem_expr)
 
         symbols_used_ = [str(i) for i in list(self.equation_expression.repr_symbolic.free_symbols)]
@@ -336,6 +340,8 @@ class Equation:
 
         self.equation_expression.symbolic_map = new_symbolic_map
 
+        self.equation_expression.variable_map = {names_map.get(k,k):whole_obj_map[names_map.get(k,k)] for k in self.equation_expression.variable_map}
+
         self._sweepObjects()
 
     def setResidual(self, equation_expression):
diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..c5ee15e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From d5408ed9f6947719bd1c9927a5abd68009134a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 12/48] fix: incorporating the equations of a model without
 renaming its objects raised KeyError

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index c5ee15e..bda5a90 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -379,7 +379,7 @@ class Model:
         var_names_from_old_model.extend(con_names_from_old_model)
         whole_names_from_old_model = var_names_from_old_model
 
-        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name for k in whole_names_from_old_model}
+        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name if rewrite_name is True else k for k in whole_names_from_old_model}
 
         if incorporate_equations is True:
 
-- 
2.43.0


From fecb6f4dd874bb67a297b7f9eefbe98c9baf2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 13/48] fix: connections recorded their output and input
 variables swapped and discarded the given description

---
 src/sloth/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index bda5a90..a557df2 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -628,9 +628,11 @@ class Model:
 
             name = out_vars_names+"--->"+in_vars_names
 
-            description = "["+out_vars_names+"--->"+in_vars_names+"]"
+            if description == "":
 
-            conn = connection.Connection(name, description, in_vars_names, out_vars_names, expr)
+                description = "["+out_vars_names+"--->"+in_vars_names+"]"
+
+            conn = connection.Connection(name, description, out_vars_names, in_vars_names, expr)
 
             conn.setResidual(expr) # I DON'T UNDERSTAND WHY THIS NEED TO BE HERE! x)
 
-- 
2.43.0


From b21ae202752c7074e76540945601ee951522f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 14/48] fix: connecting a list with a variable that is not
 exposed raised AttributeError instead of ExposedVariableError

---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..5ac0163 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,9 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        self.input_var_name = [var_i.name for var_i in input_var] if isinstance(input_var, list) else input_var.name
 
-        self.output_var_name = output_var.name
+        self.output_var_name = [var_i.name for var_i in output_var] if isinstance(output_var, list) else output_var.name
 
     def __str__(self):
 
-- 
2.43.0


From 34234837ba96c72923dd4987a6621fd7dced9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 15/48] fix: a second expression connection between the same
 two models silently replaced the first one

---
 src/sloth/problem.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..04225e7 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,16 +275,29 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._getConnectionName(model_1, model_2), "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._getConnectionName(model_1.name, model_2), "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
                 raise AbsentRequiredObjectError("[Model, str]")
 
+    def _getConnectionName(self, out_model_name, in_model):
+
+        """
+        Return a name for the connection equation that is not already used by another connection between the same models
+        """
+
+        conn_name = "conn_"+out_model_name+"-->"+in_model.name
+
+        if conn_name+"_"+in_model.name in in_model.equations:
+
+            conn_name += "_"+gen_rnd_str()
+
+        return conn_name
 
     def _createDirectConnection(self, out_model, out_vars, in_model, in_vars, expr, description):
 
-- 
2.43.0


From eedb1176be25e31b057c402f638d02f8c7348e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 16/48] fix: algebraic equations written as equalities were
 solved without their left hand side

---
 src/sloth/core/equation_block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..2ad16d0 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -312,6 +312,8 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        # Equalities (elementary form) are listed as residuals (left minus right hand side)
+
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From e1a3e32b14fe06f60092ba4b09f17650fd4f430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 17/48] fix: compiling an equation block raised TypeError
 (numpy array handed to lambdify)

---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 2ad16d0..ff3409b 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 79bc0e8215662d2f7ddea9a2ad0b095bee760216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 18/48] fix: looking up an explicit time variable matched
 substrings of other names, missed bare symbols and failed without a time
 variable

---
 src/sloth/core/equation_block.py | 34 +++-----------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index ff3409b..fd405b7 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -254,8 +254,6 @@ class EquationBlock:
         Check if an specific var was declared in current EquationBlock, in a specific group of equations, or through the entire set of equations
         """
 
-        has_been_declared = False
-
         if isinstance(var_name, list) is not True:
 
             var_name = [var_name]
@@ -266,37 +264,11 @@ class EquationBlock:
 
         else:
 
-            where_to_look = self._equations_list
-
-        for eq in where_to_look:
-
-            #print("\n======>Equation: ", eq._getSymbolicObject())
-
-            try:
-
-                equation_members_ = eq._getSymbolicObject().args
-
-            except:
-
-                equation_members_ = []
-
-            for eq_i in equation_members_:
-
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
+            where_to_look = self.equations
 
-            if has_been_declared is True:
+        # The symbolic map of an equation does not contain the independent variable of its derivatives
 
-                break
+        has_been_declared = any(var_i in eq._getSymbolicMap('residual') for eq in where_to_look for var_i in var_name)
 
         return has_been_declared
 
-- 
2.43.0


From 12aca81347403ff556720c1f2558c3c2532c9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 19/48] fix: degrees of freedom ignored time variables used
 only in algebraic equations or more than one of them

---
 src/sloth/analysis.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..902d013 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -78,11 +78,17 @@ class DOF_Analysis:
 
         """
 
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
+        # Each time variable used explicitly (in any equation of a dynamic problem) is known during the integration
 
-        if has_time_var_declared_in_diff_eq is True:
+        time_variable_names = self.problem.time_variable_name
 
-            n_eqs += 1
+        if isinstance(time_variable_names, list) is not True:
+
+            time_variable_names = [time_variable_names]
+
+        if len(self.problem.equation_block._equation_groups['differential']) > 0:
+
+            n_eqs += len([t_i for t_i in time_variable_names if self.problem.equation_block._hasVarBeenDeclared(t_i)])
 
         n_dof = n_vars + n_unspec_params - n_eqs
 
-- 
2.43.0


From e8d0ad40587fac93cb84b4597a14d7868dd6c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 20/48] fix: differential-algebraic systems lost derivatives
 with coefficients, mixed up the indexes of derivatives and the algebraic
 flags, and treated time as an unknown

---
 src/sloth/core/equation_block.py | 47 +++++++++++++++++++-------------
 src/sloth/solvers.py             | 22 +++++++++------
 2 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index fd405b7..dd962dc 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -83,10 +83,13 @@ class EquationBlock:
         _ = [eq_i._convertToResidualForm() for eq_i in self._equation_groups['differential'] if eq_i.equation_form!='residual']
 
 
-    def _getMapForRewriteSystemAsResidual(self):
+    def _getMapForRewriteSystemAsResidual(self, time_variable_names=[]):
 
         """
-        Return dictionaries mapping the differential terms and ydot nomenclature (eg:yd[0]) and variables and y nomenclature (eg:y[0]), used for residual solvers
+        Return dictionaries mapping the differential terms and ydot nomenclature (eg:yd[0]) and variables and y nomenclature (eg:y[0]), used for residual solvers. Each derivative receives the index of the variable that is derived.
+
+        :param list(str) time_variable_names:
+            Names of the time variables, that are not unknowns of the system. Defaults to [].
 
         :return:
             Two dictionaries that map between the differential terms and variables used in the equations with the residual nomenclature (yd,y)
@@ -96,15 +99,11 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
-
-        var_list = self._var_list
+        var_list = [var_i for var_i in self._var_list if var_i not in time_variable_names]
 
-        y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
+        yd_map = {diff_i:sp.Symbol("yd[{}]".format(var_list.index(str(diff_i.args[0])))) for diff_i in diff_list}
 
-        yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
-
-        y_map = {k:v for (k,v) in zip(var_list,y_list)}
+        y_map = {var_i:sp.Symbol("y[{}]".format(i)) for (i,var_i) in enumerate(var_list)}
 
         return yd_map, y_map
 
@@ -124,7 +123,7 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            _ = [diff_list.append(i) for i in sorted(eq.atoms(sp.Derivative), key=str) if i not in diff_list]
 
         return diff_list
 
@@ -149,7 +148,7 @@ class EquationBlock:
 
         return var_name_list
 
-    def _getEquationBlockAsFunction(self, differential_form='residual', side='rhs', compilation_mechanism="mpmath"):
+    def _getEquationBlockAsFunction(self, differential_form='residual', side='rhs', compilation_mechanism="mpmath", time_variable_names=[]):
 
         """
         Return the Equations that compose the current EquationBlock object into a monolithical function that will return an array of results.
@@ -163,6 +162,9 @@ class EquationBlock:
         :param str compilation_mechanism:
             Determination of which mechanism to use to compile the equations. Defaults to 'numpy'
 
+        :param list(str) time_variable_names:
+            Names of the time variables, given by 't' to the function in the residual form. Defaults to [].
+
         :return:
             Monolithic function corresponding to all the equations defined for current EquationBlock, retuning an array of results
         :rtype function:
@@ -184,15 +186,17 @@ class EquationBlock:
 
             if differential_form == 'residual':
 
-                yd_map, y_map = self._getMapForRewriteSystemAsResidual()
+                yd_map, y_map = self._getMapForRewriteSystemAsResidual(time_variable_names)
 
-                # Add y_map dict to yd_map
+                y_map = {sp.Symbol(k):v for (k,v) in y_map.items()}
 
-                yd_map.update(y_map)
+                y_map.update({sp.Symbol(t_i):sp.Symbol("t") for t_i in time_variable_names})
 
                 original_eqs = self._getEquationList(differential_form, side)
 
-                rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
+                # The derivatives must be replaced before the variables that they refer to
+
+                rewritten_eqs = [sp.sympify(eq_i).xreplace(yd_map).xreplace(y_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
                                    rewritten_eqs,
@@ -216,17 +220,22 @@ class EquationBlock:
 
             return fun_unpacked_
 
-    def _getBooleanDiffFlagsForEquations(self):
+    def _getBooleanDiffFlagsForVariables(self, time_variable_names=[]):
 
         """
-        Return an boolean list of if each of the Equation objects contained in the current EquationBlock are differential
+        Return an boolean list of if each of the variables (unknowns) contained in the current EquationBlock are differential
+
+        :param list(str) time_variable_names:
+            Names of the time variables, that are not unknowns of the system. Defaults to [].
 
         :return:
-            List of boolean flags indicating which equations are boolean
+            List of boolean flags indicating which variables are differential
         :rtype list(bool):
         """
 
-        return [float(i.type == 'differential') for i in self.equations]
+        diff_var_names = [str(diff_i.args[0]) for diff_i in self._getDiffList()]
+
+        return [float(var_i in diff_var_names) for var_i in self._var_list if var_i not in time_variable_names]
 
     def _getEquationList(self, differential_form=None, side='rhs'):
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..9418207 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -820,7 +820,9 @@ class DaeSolver(Solver):
 
         arg_names = additional_configurations['arg_names']
 
-        if time_variable_name not in problem.initial_conditions:
+        self.time_variable_names = time_variable_name if isinstance(time_variable_name, list) else [time_variable_name]
+
+        if any(t_i not in problem.initial_conditions for t_i in self.time_variable_names):
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
@@ -854,7 +856,7 @@ class DaeSolver(Solver):
         :rtype function:
         """
 
-        return self.problem.equation_block._getEquationBlockAsFunction('residual','rhs', self.compilation_mechanism)
+        return self.problem.equation_block._getEquationBlockAsFunction('residual','rhs', self.compilation_mechanism, self.time_variable_names)
 
     def _createMappingFromValues(self, var_names, var_vals):
 
@@ -892,7 +894,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
@@ -908,23 +910,25 @@ class DaeSolver(Solver):
 
         initial_conditions = self.problem.initial_conditions
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
         time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
 
-        ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
+        ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual(self.time_variable_names)
 
         y_0 = [initial_conditions[var_i] for var_i in ymap.keys()]
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        # The derivatives of the algebraic variables default to zero
 
-        if self.solver == None or self.solver == 'IDA':
+        diff_names = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
 
-            yd_0.append(0.)
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in diff_names else initial_conditions.get(var_i+'_d', 0.) for var_i in ymap.keys()]
+
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
@@ -935,7 +939,7 @@ class DaeSolver(Solver):
                                                 name='IDA'
                                         )
 
-            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForEquations()
+            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForVariables(self.time_variable_names)
 
             solver_instance = IDA(problem_instance)
 
-- 
2.43.0


From 17574317ee95e109e148c16c5a1f8ab0105bea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:45 +0000
Subject: [PATCH 21/48] fix: variables and parameters created when a model is
 called after addModels, or of models given to the Problem constructor, were
 dropped from the system

---
 src/sloth/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 04225e7..f05137b 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -398,6 +398,14 @@ class Problem:
 
         self._reloadModels()
 
+        # Objects may be created (or recreated) when a model is called, after it was added to the Problem
+
+        for model_i in self.models.values():
+
+            self.variable_dict.update(model_i.variables)
+
+            self.parameter_dict.update(model_i.parameters)
+
         self._buildEquationBlock()
 
         self.equation_block()
-- 
2.43.0


From 756e2ff438258bfe1dda4f650d6da5d23f49139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 22/48] fix: dynamic models with Min or Max could not be
 compiled (numba rejects the reduction sympy writes)

---
 src/sloth/core/equation_block.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index dd962dc..bd2ef99 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -176,8 +176,13 @@ class EquationBlock:
 
             if differential_form == 'elementary':
 
+                # Min and Max are kept as function calls: the reductions written by sympy could not be compiled by numba
+
+                equations_ = [sp.sympify(eq_i).replace(sp.Min, sp.Function('Min')).replace(sp.Max, sp.Function('Max'))
+                              for eq_i in self._getEquationList(differential_form,side)]
+
                 fun_ = sp.lambdify(self._var_list,
-                                   self._getEquationList(differential_form,side),
+                                   equations_,
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
-- 
2.43.0


From e24e67c58024867428b7e3b5f665262adc95b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 23/48] fix: registering further rows in a domain failed or
 lost the column names

---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From 9658cac00f7e52c33bf3c6ee473d3616e2236011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 24/48] fix: dynamic results were stored under the names of
 other variables when equations and variables were declared in different
 orders

---
 src/sloth/solvers.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 9418207..16fc368 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -114,6 +114,30 @@ class Solver:
 
         pass
 
+    def _orderAsInDomain(self, var_names, Y):
+
+        """
+        Arrange the columns of a solution, that follow the order of the solved system, in the order of the columns of the domain
+
+        :param list(str) var_names:
+            Names of the variables in the order of the columns of Y
+
+        :param array Y:
+            Solution obtained, one row for each time point
+
+        :return Y:
+            Solution with its columns in the order of the domain
+        :rtype array:
+        """
+
+        domain_names = list(self.domain.dependent_objs.keys())
+
+        if sorted(domain_names) == sorted(var_names):
+
+            return np.array(Y)[:, [var_names.index(name_i) for name_i in domain_names]]
+
+        return Y
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -763,7 +787,7 @@ class DSolver(Solver):
             # print("Y.shape=",Y.shape," time_points.shape=",time_points.shape)
             # print("RESULT: \n",Y)
 
-            to_register_ = np.hstack((time_points.reshape(-1,1), Y))
+            to_register_ = np.hstack((time_points.reshape(-1,1), self._orderAsInDomain(Y_names, Y)))
 
         if self.solver == 'CVODE':
 
@@ -773,7 +797,7 @@ class DSolver(Solver):
             #print("Y.shape=",Y.shape," time_points.shape=",time_points.shape)
             #print("RESULT: \n",Y)
 
-            to_register_ = np.hstack((time_points.reshape(-1,1), Y))
+            to_register_ = np.hstack((time_points.reshape(-1,1), self._orderAsInDomain(Y_names, Y)))
 
         if self.additional_configurations['print_output'] == True:
 
@@ -965,7 +989,7 @@ class DaeSolver(Solver):
 
             #================================================
 
-        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
+        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), self._orderAsInDomain(list(ymap.keys()), Y)))
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From e4c24ed86b19f6f6edb717b258ff5077e1cfeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 25/48] fix: all models and unit operations shared one
 dictionary of ports, and inlets were repeated when set more than once

---
 src/sloth/model.py   | 6 ++++--
 src/sloth/unit_op.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index a557df2..267f96f 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = {'inlets':{},'outlets':{}} if ports is None else ports
 
         self.objects_info = {}
 
@@ -585,6 +585,8 @@ class Model:
 
         self.ports['inlets'].update({inlet_name: _inlets})
 
+        self._inlets = []
+
         _ = [self._inlets.extend(self.ports['inlets'][in_]) for in_ in list(self.ports['inlets'].keys())]
 
     def _setOutlets(self, outlets):
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 972ea82..4f0dc89 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -17,7 +17,7 @@ class UnitOp:
     Defines the UnitOp class, that holds the capabilities for: acessing ports (inputs, outputs) from the UnitOp objects; Predefine streams for input and output, allowing to the port to be passed directly to other UnitOps
     """
 
-    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports={'inlets':{},'outlets':{}}):
+    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports=None):
 
         self.n_inputs = n_inputs
 
@@ -25,7 +25,7 @@ class UnitOp:
 
         self.model = model
 
-        self.ports = ports
+        self.ports = {'inlets':{},'outlets':{}} if ports is None else ports
 
         self.property_package = model.property_package
 
-- 
2.43.0


From b33b26a9d6d6d363400f7ec271b755342664d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 26/48] fix: running a dynamic simulation changed the argument
 names configured for all the others

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 16fc368..f44b67a 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -402,7 +402,7 @@ class DSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if isinstance(time_variable_name, list):
 
@@ -842,7 +842,7 @@ class DaeSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         self.time_variable_names = time_variable_name if isinstance(time_variable_name, list) else [time_variable_name]
 
-- 
2.43.0


From 8fe3c0c021be6b5d3a136c250546acb0cd8a2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 27/48] fix: adding property packages changed the phases of the
 packages created afterwards

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..aca5740 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
-- 
2.43.0


From fe5ad01f9ba78d4d22a48c4fb221490e88e5ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:22 +0000
Subject: [PATCH 28/48] fix: bounds and maximization given to the constructor
 of an optimization problem were discarded

---
 src/sloth/optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..ec33f30 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,9 +49,9 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
@@ -534,7 +534,9 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            if self.constraints is not None:
+
+                self.optimization_problem.setBounds(self.constraints)
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
-- 
2.43.0


From 96b9751df3a0deabecc412c40e3e6d1a46daa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 29/48] fix: maximization studies minimized their objective
 function

---
 src/sloth/optimization.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index ec33f30..b425b8e 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -124,11 +124,25 @@ class OptimizationProblem:
 
         pass
 
+    def _evaluateFitness(self, x):
+
+        """
+        Fitness as seen by the optimization mechanisms, that always minimize
+        """
+
+        fitness_ = self.DeclareObjectiveFunction(x)
+
+        if self.is_maximization is True:
+
+            fitness_ = [-f_i for f_i in fitness_]
+
+        return fitness_
+
     def __call__(self):
 
         #Reimplement virtual methods
 
-        self.fitness = self.DeclareObjectiveFunction
+        self.fitness = self._evaluateFitness
 
         self.get_bounds = self.DeclareSetBounds
 
@@ -538,6 +552,10 @@ class Optimization:
 
                 self.optimization_problem.setBounds(self.constraints)
 
+            if self.is_maximization is True:
+
+                self.optimization_problem.is_maximization = True
+
             self.optimization_mechanism.set_verbosity(report_frequency)
 
             # Print information
@@ -558,6 +576,10 @@ class Optimization:
 
             self.best_fitness = pop.champion_f
 
+            if self.optimization_problem.is_maximization is True:
+
+                self.best_fitness = -pop.champion_f
+
             end_time = time()
 
             elapsed_time = end_time - start_time
@@ -568,6 +590,12 @@ class Optimization:
 
                 self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)
 
+                if self.optimization_problem.is_maximization is True:
+
+                    best_column = 'gbest' if self.optimizer == 'pso' else 'Best'
+
+                    self.optimization_log[best_column] = -self.optimization_log[best_column]
+
             if save_optimization_graph is True:
 
                 generations = np.array(self.getOptimizationLog().loc[:, "Gen"].values.tolist(), dtype=int)
@@ -610,7 +638,7 @@ class Optimization:
             print("\n\tOptimization ended. \n\t Elapsed time:{}".format(strftime("%H:%M:%S", gmtime(elapsed_time))))
 
             if print_output is True:
-                print("Best individual: \n%s -> finess: %s"%(pop.champion_x, pop.champion_f))
+                print("Best individual: \n%s -> finess: %s"%(self.best_parameters, self.best_fitness))
 
             self.run_sucessful=True
 
-- 
2.43.0


From 539f1809c895b6d6845e923329da544a70f523c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 30/48] fix: time series could not be plotted without labels
 (the default)

---
 src/sloth/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..6635cc2 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -69,7 +69,7 @@ class Plotter:
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
                              marker=markers[j],
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
@@ -83,7 +83,7 @@ class Plotter:
 
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
-- 
2.43.0


From b8657cd5c31fefab3d143404a6e5566b163df312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 31/48] fix: dynamic simulations without a number of time steps
 raised AttributeError

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f44b67a..4089b9b 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -739,7 +739,7 @@ class DSolver(Solver):
 
         Y_0 = [initial_conditions[var_i] for var_i in Y_names]
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time!= None:
 
             number_of_time_steps = 100#int(1000*(end_time - initial_time))
 
-- 
2.43.0


From 13789485453cfa53b218c6bc4d4c1068a001e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 32/48] fix: results of linear problems solved with scipy were
 arrays instead of numbers

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 4089b9b..8c00ff9 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -263,7 +263,7 @@ class LASolver(Solver):
 
         A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
 
-        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
+        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).reshape(-1)
 
         #print("\n\nA=%s b=%s"%(A,b))
 
-- 
2.43.0


From b8f420753a6480c02dd60cf09149ff3b20591e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 33/48] fix: errors of incoherence with a dimensionless
 expression could not be printed

---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index 5ac0163..34f965a 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -159,9 +159,9 @@ class DimensionalCoherenceError(Exception):
     def __str__(self):
 
         msg = "Dimensions are incoherent \n(" + \
-               str(self.unit_1.dimension)   + \
+               str(getattr(self.unit_1, 'dimension', self.unit_1))   + \
                "\n != \n"                       + \
-               str(self.unit_2.dimension)   + \
+               str(getattr(self.unit_2, 'dimension', self.unit_2))   + \
                ")."
 
         return(msg)
-- 
2.43.0


From 407670e104a3c7002132dae8eb669fd729033aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 34/48] fix: ports of a model could not be referenced by name

---
 src/sloth/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 267f96f..e7ae9f3 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -535,12 +535,14 @@ class Model:
 
         self.__dict__[object_name] = eq_
 
-    def __getitem__(self, port_type, port_name):
+    def __getitem__(self, port):
 
         """
         Overloaded function used to reference the ports of the model through its name
         """
 
+        port_type, port_name = port
+
         return self.ports[port_type][port_name]
 
     def __call__(self):
-- 
2.43.0


From fe1520d8956b94f94317b2f25ee3c23d2db2a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 35/48] fix: phase fractions of unit operations were never
 exposed, and the inlet ones were declared as outputs

---
 src/sloth/unit_op_library.py | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..83d8404 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -207,10 +207,10 @@ class Mixer(model.Model):
 
                 for phase_i in self.property_package.phase_names:
 
-                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -322,10 +322,10 @@ class Tank(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
 
@@ -437,10 +437,10 @@ class Valve(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -547,10 +547,10 @@ class SimplePump(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -617,10 +617,10 @@ class Heater(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -738,10 +738,10 @@ class Flash_Dynamic(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
@@ -841,12 +841,12 @@ class Flash_SteadyState(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
-                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
-- 
2.43.0


From 0c495e4cb800e9380ff0c7717750bf747c4ccfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 36/48] fix: coefficient matrix of linear problems is extracted
 with symbols (sympy ignores names given as strings)

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 8c00ff9..23df078 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -261,7 +261,7 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(var_i) for var_i in self.problem.equation_block._var_list])
 
         A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).reshape(-1)
 
-- 
2.43.0


From c27cd3d9fe43da61b3116d18f385223b7a3cc2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 37/48] fix: an unknown nonlinear solver is refused with the
 error meant for it

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 23df078..8d3b035 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -306,7 +306,7 @@ class NLASolver(Solver):
 
         else:
 
-            raise AbsentRequiredObjectError("element from {}" % self.expected_solver_names, self.solver)
+            raise AbsentRequiredObjectError("element from {}".format(self.expected_solver_names), self.solver)
 
 
     def _sympySolveMechanism(self):
-- 
2.43.0


From 56b03112dbcc54cf86f8e4a56a63c2b9f3e2b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 38/48] fix: variables given a value were still counted and
 solved as unknowns

---
 src/sloth/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index f05137b..40db3dc 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -164,7 +164,9 @@ class Problem:
 
                 for obj_i in list(eq_i.objects_declared.values()):
 
-                    if obj_i not in _var_list and isinstance(obj_i, Variable):
+                    # Variables that entered the equation already specified are replaced by their value, thus are not unknowns
+
+                    if obj_i not in _var_list and isinstance(obj_i, Variable) and obj_i.name in eq_i.equation_expression.variable_map:
 
                         _var_dict[obj_i.name] = obj_i
 
-- 
2.43.0


From ba9454e53fe96ffd6a2a81cc1e55c8330f36d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 39/48] fix: streams with temperature or pressure but no
 property package could not be loaded

---
 src/sloth/unit_op_library.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 83d8404..3046aca 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -51,15 +51,15 @@ class HomogeneousMaterialStream(model.Model):
 
         #Recalculate property_package if T and P where provided
 
-        if self.T.is_specified is True and self.P.is_specified is False:
+        if self.property_package is not None and self.T.is_specified is True and self.P.is_specified is False:
 
             self.property_package.calculate(T=self.T.value)
 
-        if self.T.is_specified is False and self.P.is_specified is True:
+        if self.property_package is not None and self.T.is_specified is False and self.P.is_specified is True:
 
             self.property_package.calculate(P=self.P.value)
 
-        if self.T.is_specified is True and self.P.is_specified is True:
+        if self.property_package is not None and self.T.is_specified is True and self.P.is_specified is True:
 
             self.property_package.calculate(T=self.T.value, P=self.P.value)
 
@@ -105,15 +105,15 @@ class MaterialStream(model.Model):
 
         #Recalculate property_package if T and P where provided
 
-        if self.T.is_specified is True and self.P.is_specified is False:
+        if self.property_package is not None and self.T.is_specified is True and self.P.is_specified is False:
 
             self.property_package.calculate(T=self.T.value)
 
-        if self.T.is_specified is False and self.P.is_specified is True:
+        if self.property_package is not None and self.T.is_specified is False and self.P.is_specified is True:
 
             self.property_package.calculate(P=self.P.value)
 
-        if self.T.is_specified is True and self.P.is_specified is True:
+        if self.property_package is not None and self.T.is_specified is True and self.P.is_specified is True:
 
             self.property_package.calculate(T=self.T.value, P=self.P.value)
 
-- 
2.43.0


From 299b32a530d993dead1fcd3f7904863dc44f7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 40/48] fix: the neighborhood settings of the particle swarm
 were not passed on

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index b425b8e..1888200 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -454,7 +454,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']
 
-                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant))
+                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant, neighb_type=neighb_type, neighb_param=neighb_param))
 
                 #isl = pg.island(algo, self.optimization_problem, ind)
 
-- 
2.43.0


From cd52ad5beedf1b6964b150ccf0352acbb42a784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 41/48] fix: CVODE integrates from the initial time

---
 src/sloth/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 8d3b035..828de98 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -765,6 +765,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
-- 
2.43.0


From 6560fcde66f80719427e8311d23041df183242c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 42/48] fix: an equation declared again as a residual drops the
 sides of its earlier equality

---
 src/sloth/core/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 88d5eee..2337736 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -391,6 +391,10 @@ class Equation:
 
             self.equation_expression = equation_expression
 
+            self.elementary_equation_expression = None
+
+            self.equation_form = 'residual'
+
             self._sweepObjects()
 
             self._getTypeFromExpression()
-- 
2.43.0


From 85d752a0a26919697652c0abf08a2a3b34cc3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 43/48] fix: an incoherent equality is rejected before the
 equation's sides are replaced

---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 2337736..d8aa807 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -362,10 +362,10 @@ class Equation:
 
                 #If the RHS is an ENODE, pass it directly
 
-                self.elementary_equation_expression = tuple([equation_expression[0], equation_expression[1]])
-
                 self.equation_expression = equation_expression[0] - equation_expression[1]
 
+                self.elementary_equation_expression = tuple([equation_expression[0], equation_expression[1]])
+
             if isinstance(equation_expression[1], float) or isinstance(equation_expression[1], int):
 
                 #If the RHS is a float or an int, convert it to ENODE previously
-- 
2.43.0


From 87a8457c5f774e851deddb980a6acc0d57d8b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 44/48] fix: a right side that is no expression or number is
 rejected before the equation is touched

---
 src/sloth/core/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index d8aa807..defa76c 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -358,6 +358,10 @@ class Equation:
 
             # The equation expression is in the elementary form
 
+            if not isinstance(equation_expression[1], (EquationNode, float, int)):
+
+                raise UnexpectedValueError("[EquationNode, tuple(EquationNode, EquationNode) ]")
+
             if isinstance(equation_expression[1], EquationNode):
 
                 #If the RHS is an ENODE, pass it directly
-- 
2.43.0


From 312e5d033bfaa4738ebabf63e5891d6b8e8ede9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 45/48] fix: times for the solution given as a list are
 recorded like those given as an array

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 828de98..1f86ce7 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -749,7 +749,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
-- 
2.43.0


From 7fc895c0622e9d1b861383d5f2b0a15b35f47255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:47 +0000
Subject: [PATCH 46/48] fix: differential-algebraic runs use the times given
 for the solution

---
 src/sloth/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 1f86ce7..580677a 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -939,7 +939,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = np.array(conf_args['times_for_solution']).tolist()
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual(self.time_variable_names)
 
-- 
2.43.0


From 10e86c73132eff5f17f9e27f729fad1a4e1e5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 47/48] fix: keep all objects when a model that was
 incorporated without renaming is incorporated again

---
 src/sloth/model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index e7ae9f3..43a0234 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -379,7 +379,7 @@ class Model:
         var_names_from_old_model.extend(con_names_from_old_model)
         whole_names_from_old_model = var_names_from_old_model
 
-        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name if rewrite_name is True else k for k in whole_names_from_old_model}
+        names_map = {k: (k[:-(1+len(model_to_incorporate.name))] if k.endswith('_'+model_to_incorporate.name) else k)+'_'+self.name if rewrite_name is True else k for k in whole_names_from_old_model}
 
         if incorporate_equations is True:
 
@@ -405,7 +405,8 @@ class Model:
 
         var_ = deepcopy(var)
 
-        if var.owner_model_name is not "":
+        #Objects incorporated without renaming keep the suffix of their first owner
+        if var.owner_model_name is not "" and var.name.endswith("_" + var.owner_model_name):
 
             object_name =  var.name[:-(1+len(var.owner_model_name))]
 
@@ -442,7 +443,8 @@ class Model:
 
         par_ = deepcopy(par)
 
-        if par.owner_model_name is not "":
+        #Objects incorporated without renaming keep the suffix of their first owner
+        if par.owner_model_name is not "" and par.name.endswith("_" + par.owner_model_name):
 
             object_name =  par.name[:-(1+len(par.owner_model_name))]
 
@@ -475,7 +477,8 @@ class Model:
 
         con_ = deepcopy(con)
 
-        if con.owner_model_name is not "":
+        #Objects incorporated without renaming keep the suffix of their first owner
+        if con.owner_model_name is not "" and con.name.endswith("_" + con.owner_model_name):
 
             object_name =  con.name[:-(1+len(con.owner_model_name))]
 
@@ -508,7 +511,8 @@ class Model:
 
         eq_ = deepcopy(eq)
 
-        if eq.owner_model_name is not "":
+        #Objects incorporated without renaming keep the suffix of their first owner
+        if eq.owner_model_name is not "" and eq.name.endswith("_" + eq.owner_model_name):
 
             object_name =  eq.name[:-(1+len(eq.owner_model_name))]
 
-- 
2.43.0


From 985ffc1b6b43a846365733df6029ae7a32659e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 48/48] fix: rename all the names of an incorporated equation
 at once

---
 src/sloth/core/equation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index defa76c..b42175b 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,21 +292,24 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).subs(names_map)
+        # All the names are replaced at once, as a new name may be the same as another old one
+        symbols_map = {sp.Symbol(k): sp.Symbol(v) for (k,v) in names_map.items()}
 
-        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
+        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).xreplace(symbols_map)
+
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).xreplace(symbols_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).xreplace(symbols_map)
 
-            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).xreplace(symbols_map)
 
             try:
 
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.subs(names_map)
+                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.xreplace(symbols_map)
 
             except:
 
@@ -314,7 +317,7 @@ class Equation:
 
             try:
 
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
+                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.xreplace(symbols_map)
 
             except:
 
-- 
2.43.0

