From a59abba8c4d511e9031c738c12d5b953debb24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 01/30] fix: keep AnyDice operator grouping in the generated
 Python (comparison chains, & and | of comparisons, ^ grouping and unary
 minus)

---
 src/parser/python_resolver.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..6901418 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -17,6 +17,7 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
+COMPARISONS = ('=', '!=', '<', '>', '<=', '>=')
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
 
 
@@ -96,6 +97,17 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _resolve_operand(self, node: Union['Node', 'str'], parent_op: str, is_left: bool) -> str:
+        """Resolve an operand of a binary operator, wrap it in parentheses if python's precedence differs from anydice's"""
+        result = self.resolve_node(node)
+        assert isinstance(node, Node), f'Expected Node as an operand, got {node}'
+        is_comparison = node.type == NodeType.EXPR_OP and node.vals[0] in COMPARISONS
+        if is_comparison and (parent_op in COMPARISONS or parent_op in ('&', '|')):  # python chains comparisons and & | bind tighter than them
+            return f'({result})'
+        if parent_op == '^' and is_left and (node.type == NodeType.UNARY or (node.type == NodeType.EXPR_OP and node.vals[0] == '^')):  # python's ** is right associative and binds tighter than unary
+            return f'({result})'
+        return result
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -226,6 +238,7 @@ class PythonResolver:
         elif node.type == NodeType.EXPR_OP:
             op, left, right = node
             assert isinstance(op, str), f'Unknown operator {op}'
+            anydice_op = op
             op = {'=': '==', '^': '**', '/': '//'}.get(op, op)
             if op == 'dm':
                 return f'{CONST["roll"]}({self.resolve_node(left)})'
@@ -238,9 +251,9 @@ class PythonResolver:
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(left, anydice_op, True)} {op} {self._resolve_operand(right, anydice_op, False)}'
             else:  # all other operators
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(left, anydice_op, True)} {op} {self._resolve_operand(right, anydice_op, False)}'
         elif node.type == NodeType.UNARY:
             op, expr = node
             if op == '!':
-- 
2.43.0


From 0091dff607c18644a2e1f1f2f00d42baa356cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 02/30] fix: escape backslashes and control characters of
 AnyDice strings in the generated Python

---
 src/parser/python_resolver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 6901418..62ada94 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -119,7 +119,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
+                    str_list.append(escape_str(x).replace('{', '{{').replace('}', '}}'))  # escape curly braces
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
@@ -295,6 +295,11 @@ class PythonResolver:
             assert False, f'Unknown node: {node}'
 
 
+def escape_str(s: str):
+    """Escape backslashes and characters that cannot appear as is inside a python string literal"""
+    return ''.join(c if (c.isprintable() and c != '\\') else c.encode('unicode_escape').decode('ascii') for c in s)
+
+
 def has_dups(lst):
     return len(lst) != len(set(lst))
 
-- 
2.43.0


From ceb636466b751b5b2442bdc3167adb3e2debc03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 03/30] fix: accept number literals with leading zeros and
 reject non-ASCII digits

---
 src/parser/myparser.py        | 2 +-
 src/parser/python_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..032fb0b 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -78,7 +78,7 @@ def t_ignore_COMMENT(t):
 
 
 def t_NUMBER(t):
-    r'\d+'
+    r'[0-9]+'
     # t.value = int(t.value)  # Convert the string to an integer
     return t
 
diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 62ada94..33818b4 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -130,7 +130,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return node.val.lstrip('0') or '0'  # python doesn't allow leading zeros
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From 8534fa48371990fe96cdff5cd3a1c5c4db05472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 04/30] fix: let [true div A B] be called under the non-local
 scope flag like the other library functions

---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..883ff20 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -60,5 +60,5 @@ def myor(a, b):
     return a | b
 
 
-def true_div(a, b):
+def true_div(a, b, *args, **kwargs):
     return a / b
-- 
2.43.0


From cfb6e0a416305e8f3717768ad18480482d34ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 05/30] fix: do not empty the caller's compiler flags

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 33818b4..1eeedf8 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -27,7 +27,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})  # copy, the flags are popped below
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From 0968726b0290a2067bdc18b88573f214f0e341b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 06/30] fix: restore the function depth counter when a function
 raises

---
 src/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..5d93c83 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -151,8 +151,10 @@ def max_func_depth():
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
       SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      try:
+        res = func(*args, **kwargs)
+      finally:
+        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 227a9087fc88573ff68192fafa16d682ee5ee967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 07/30] fix: rolling no longer changes the text form of
 memoized rolls or of the rolled die

---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..8af3bf0 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL! (copy so that the memoized roll and the argument d keep their own __str__)
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From dec03522f57b61441c46c7819506a944228fcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 08/30] fix: the roll cache no longer mixes up ints and floats
 or rolls made under other settings

---
 src/roller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 8af3bf0..9789486 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -6,6 +6,7 @@ import math
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
 from .randvar import RV
+from .settings import SETTINGS
 from . import blackrv
 
 
@@ -89,14 +90,16 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  # 1 == 1.0 but they must not share rolls, and some settings change how new RVs are created
+  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From 9ff8fb77961a4f98dde1ed140479fade1e92cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 09/30] fix: get_vals_probs with a cut no longer always drops
 the value 0

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..7775c67 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From 4366e6fd9ca77c7092f0daab119b7feed179d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 10/30] fix: order statistics use the unreduced cumulative
 weights, aligned with the values

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 7775c67..84101d6 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -241,7 +241,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x)
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From 28f1ffd4b237de35a0efba72f75ed02b7eb46993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 11/30] fix: reducing very large weights no longer overflows
 floats

---
 src/randvar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 84101d6..5cd93e7 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -444,12 +444,12 @@ class _rdict:
     return d.to_tuples()
 
 
-def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
+def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**31):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = 10**11 * (sum_ // sum_limit)  # only ints, sum_ may be too large for a float
+  logger.warning(f'WARNING reducing probabilities | sum limit 2**{sum_limit.bit_length()}, sum 2**{sum_.bit_length()}, NORMALIZING BY 2**{normalizing_const.bit_length()} | from my calc, abs err <= {1 / (sum_ // normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From d5f82275399e6c21be8b16b5efe8cada2a351afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 12/30] fix: sequences with strings support sums and positions

---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..6d893c3 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -105,6 +105,8 @@ class StringVal(MetaStr):
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
     # do not call super().__init__ here
+    self._sum = None
+    self._one_indexed = 1
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
-- 
2.43.0


From 2a76998c683a49b7997a4104fd6887e1e152ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 13/30] fix: equal StringVals have equal hashes

---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 6d893c3..7662ec2 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, tuple(self.data[k] for k in self.keys)))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From bd446ab05f040a56fb18d29ac07cc7a586b788f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 14/30] fix: a float given to a sequence parameter becomes a
 sequence

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index 5d93c83..30cd81f 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From 362541b87e024a16b53e268dc54ecd4c7818675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 15/30] fix: compute the standard deviation without
 cancellation

---
 src/randvar.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 5cd93e7..15b74fe 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -125,11 +125,10 @@ class RV(MetaRV):
   def std(self):
     if self._get_sum_probs() == 0:  # if no probabilities, then std does not exist
       return None
-    EX2 = (self**2).mean()
     EX = self.mean()
-    assert EX2 is not None and EX is not None, 'mean must be defined to calculate std'
-    var = EX2 - EX**2  # E[X^2] - E[X]^2
-    return math.sqrt(var) if var >= 0 else 0
+    assert EX is not None, 'mean must be defined to calculate std'
+    var = sum((v - EX)**2 * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs))  # E[(X - E[X])^2]
+    return math.sqrt(var)
 
   def filter(self, obj: T_ifsr):
     to_filter = set(factory.get_seq(obj))
-- 
2.43.0


From 0bf0bbe066f652da37c00c61f9ab819c8ef75ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 16/30] fix: resetting the settings inside a function no longer
 leaves a negative function depth

---
 src/decorators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index 30cd81f..30957b4 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -150,11 +150,12 @@ def max_func_depth():
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      SETTINGS['INTERNAL_CURR_DEPTH'] += 1
+      depth = SETTINGS['INTERNAL_CURR_DEPTH']
+      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
       try:
         res = func(*args, **kwargs)
-      finally:
-        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      finally:  # also when func raises or resets the settings
+        SETTINGS['INTERNAL_CURR_DEPTH'] = depth
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From a70955abb1ba9adc92cfb6a75a245e308d309868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 17/30] fix: sequences of rolled dice respect the position
 order setting

---
 src/randvar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 15b74fe..57eb8ac 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -177,7 +177,8 @@ class RV(MetaRV):
     pdf_dict = {v: p for v, p in zip(D.vals, D.probs)}
     vals, probs = [], []
     FACTORIAL_N = utils.factorial(N)
-    for roll in combinations_with_replacement(D.vals[::-1], N):
+    ordered_vals = D.vals[::-1] if SETTINGS["position order"] == "highest first" else D.vals
+    for roll in combinations_with_replacement(ordered_vals, N):
       vals.append(factory.get_seq(_INTERNAL_SEQ_VALUE=roll))
       counts = defaultdict(int)  # fast counts
       cur_roll_probs = 1  # this is p(x_1)*...*p(x_n) where [x_1,...,x_n] is the current roll, if D is a uniform then this = 1 and is not needed.
-- 
2.43.0


From 8215b8d1d6a7f96e1f877a1f0c4409c537994cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 18/30] fix: a roll with a random number of dice is a single
 die of its own, not one roll of the rolled die

---
 src/roller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 9789486..257b88b 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -74,9 +74,7 @@ def _roll(n: Union[int, MetaSeq, RV], d: Union[int, MetaSeq, RV]) -> MetaRV:
   if isinstance(n, RV):
     assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'
     dies = tuple(roll(int(v), d) for v in n.vals)
-    result = RV.from_rvs(rvs=dies, weights=n.probs)
-    result.set_source(1, d)
-    return result
+    return RV.from_rvs(rvs=dies, weights=n.probs)
   return _roll_int_rv(n, d)
 
 
-- 
2.43.0


From 444b67775a9e54719d11dc3ec22ed884f72967b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 19/30] fix: allow repeated parameter names without a type

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 1eeedf8..d2be851 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -309,5 +309,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = ': '.join([f'dummy{i}', *func_args[i].split(': ')[1:]])  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From 7e0f5404e9448d2d84f23084d4cd009a406c84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 20/30] fix: position access into the result of a comparison

---
 src/seq.py   | 2 +-
 src/utils.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seq.py b/src/seq.py
index 1360e05..54568b2 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -52,7 +52,7 @@ class Seq(Iterable, MetaSeq):
       return other.__rmatmul__(self)
     # access at indices in other ( self @ other )
     if isinstance(other, (int, float)):
-      other = Seq([int(d) for d in str(other)])  # SEQ @ int  thus convert int to sequence using base 10
+      other = Seq([int(d) for d in str(int(other) if isinstance(other, bool) else other)])  # SEQ @ int  thus convert int to sequence using base 10
     if not isinstance(other, Seq):
       other = Seq(other)
     assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'
diff --git a/src/utils.py b/src/utils.py
index 883ff20..f53e8cc 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -32,6 +32,7 @@ def factorial(n: int):
 # to handle special cases of operators on int
 def mymatmul(a, b):
     if isinstance(a, int) and isinstance(b, int):  # special case for int @ int
+        b = int(b)  # result of a comparison may be a bool
         return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0
     return a @ b
 
-- 
2.43.0


From 108387ccb09930c8cc701669804d49fd1db35ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 21/30] fix: reject unknown parameter types instead of
 generating invalid Python

---
 src/parser/python_resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index d2be851..364754d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -178,7 +178,8 @@ class PythonResolver:
                 else:
                     arg_name, arg_dtype = x
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
-                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}.get(arg_dtype, arg_dtype)
+                    assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type "{arg_dtype}", expected n, s or d'
+                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}[arg_dtype]
                     func_args.append(f'{arg_name}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
-- 
2.43.0


From 46ec1c5786afdbae0e0cf44582b44b32ede536c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 22/30] fix: support unary plus and minus on sequences

---
 src/seq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seq.py b/src/seq.py
index 54568b2..6817091 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -70,6 +70,12 @@ class Seq(Iterable, MetaSeq):
     return sum(self[int(i)] for i in other._seq)
 
   # operators
+  def __pos__(self):
+    return +self.sum()
+
+  def __neg__(self):
+    return -self.sum()
+
   def __add__(self, other: T_ifs):
     return operator.add(self.sum(), other)
 
-- 
2.43.0


From c5ff758c412193712de70376df3bd706cde08b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 23/30] fix: variables named like the parameter types no longer
 break functions

---
 src/parser/python_resolver.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 364754d..090ef18 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -127,7 +127,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected string for strvar, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return "{vars['" + node.val + "']}"
-            return '{' + node.val + '}'
+            return '{' + python_var_name(node.val) + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
             return node.val.lstrip('0') or '0'  # python doesn't allow leading zeros
@@ -139,7 +139,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected str of a variable, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{node.val}']"
-            return node.val
+            return python_var_name(node.val)
         elif node.type == NodeType.GROUP:  # group inside an expression, node.val is an expression
             return f'({self.resolve_node(node.val)})'
 
@@ -172,7 +172,7 @@ class PythonResolver:
                     func_name.append(x)
                 elif x.type == NodeType.PARAM:
                     arg_name = x.val
-                    func_args.append(arg_name)
+                    func_args.append(python_var_name(arg_name))
                     func_arg_names.append(arg_name)
                     func_name.append('X')
                 else:
@@ -180,7 +180,7 @@ class PythonResolver:
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
                     assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type "{arg_dtype}", expected n, s or d'
                     arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}[arg_dtype]
-                    func_args.append(f'{arg_name}: {arg_dtype}')
+                    func_args.append(f'{python_var_name(arg_name)}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
             if has_dups(func_arg_names):
@@ -194,7 +194,7 @@ class PythonResolver:
             func_def = f'def {func_name}({", ".join(func_args)}):'
             func_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {n}' for n in func_arg_names])) + '\n'
+                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {python_var_name(n)}' for n in func_arg_names])) + '\n'
             func_code += self._indent_resolve(code)
             return f'{func_decorator}\n{func_def}\n{func_code}' + '\n' * self.NEWLINES_AFTER_FUNCTION
         elif node.type == NodeType.RESULT:
@@ -221,10 +221,11 @@ class PythonResolver:
         # LOOP
         elif node.type == NodeType.LOOP:
             var, over, code = node
-            res_header = f'for {var} in {self.resolve_node(over)}:'
+            py_var = python_var_name(var)
+            res_header = f'for {py_var} in {self.resolve_node(over)}:'
             res_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                res_code += self._indent_str(f"vars['{var}'] = {var}") + '\n'  # I hate this but it must happen
+                res_code += self._indent_str(f"vars['{var}'] = {py_var}") + '\n'  # I hate this but it must happen
             res_code += self._indent_resolve(code)
             return res_header + '\n' + res_code + '\n' * self.NEWLINES_AFTER_LOOP
 
@@ -233,7 +234,7 @@ class PythonResolver:
             var, val = node
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{var}'] = {self.resolve_node(val)}"
-            return f'{var} = {self.resolve_node(val)}'
+            return f'{python_var_name(var)} = {self.resolve_node(val)}'
 
         # EXPRESSIONS
         elif node.type == NodeType.EXPR_OP:
@@ -296,6 +297,11 @@ class PythonResolver:
             assert False, f'Unknown node: {node}'
 
 
+def python_var_name(name):
+    """Variables may not overwrite the types used in the generated function definitions"""
+    return f'v_{name}' if name in ('T_N', 'T_S', 'T_D') else name
+
+
 def escape_str(s: str):
     """Escape backslashes and characters that cannot appear as is inside a python string literal"""
     return ''.join(c if (c.isprintable() and c != '\\') else c.encode('unicode_escape').decode('ascii') for c in s)
-- 
2.43.0


From 6e5cae8e6f8958c640237dd1a45421c27eacaed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 24/30] fix: user functions can have any name (Python keywords,
 names of the generated code, only parameters) and be mixed with library calls

---
 src/parser/python_resolver.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 090ef18..139f8d6 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,3 +1,5 @@
+import builtins
+import keyword
 import logging
 from typing import Union
 
@@ -18,7 +20,7 @@ CONST = {
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
 COMPARISONS = ('=', '!=', '<', '>', '<=', '>=')
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], CONST['seq'], 'max_func_depth', 'anydice_casting', 'settings_set', 'printed', 'builtins', *dir(builtins), *keyword.kwlist))
 
 
 class PythonResolver:
@@ -35,7 +37,7 @@ class PythonResolver:
         self._COMPILER_FLAG_NON_LOCAL_SCOPE = flags.pop('COMPILER_FLAG_NON_LOCAL_SCOPE', False)
         # this flag is to support operators on ints: @, len, and ~.  These operators (on ints) are rarely used in actual code.
         self._COMPILER_FLAG_OPERATOR_ON_INT = flags.pop('COMPILER_FLAG_OPERATOR_ON_INT', False)
-        # prepends all func defs and func calls with a string to prevent collisions with user-defined functions checked against _FUNCS_MAY_COLLIDE (resolving turns it on when _funclib_conflicted is True and resets resolving)
+        # prepends all func defs and func calls (except calls to the function library) with a string to prevent collisions; by default only names in _FUNCS_MAY_COLLIDE are prepended
         self._COMPILER_FLAG_FUNC_LIB_CONFLICT = flags.pop('COMPILER_FLAG_FUNC_LIB_CONFLICT', False)
         # this flag is to check if functions are defined. otherwise [func] might crash at run time or [list] might call python's internal "list()" function
         self._COMPILER_FLAG_FUNC_EXIST_CHECK = flags.pop('COMPILER_FLAG_FUNC_EXIST_CHECK', True)
@@ -73,13 +75,6 @@ class PythonResolver:
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-        if any(f in self._defined_functions for f in _FUNCS_MAY_COLLIDE):  # collision -> reset with flag (if another collision then crash)
-            assert not self._COMPILER_FLAG_FUNC_LIB_CONFLICT, 'Function library conflict despite flag; this should not happen'
-            self._COMPILER_FLAG_FUNC_LIB_CONFLICT = True
-            self.reset_state()
-            self.resolve()
-            return
-
         # remove multiple nearby newlines
         result = list(result.split('\n'))
         result = [x for i, x in enumerate(result) if i == 0 or x.strip() != '' or result[i - 1].strip() != '']
@@ -97,6 +92,16 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _python_func_name(self, words: 'list[str]') -> str:
+        """Name of a function in the generated code, "f__" cannot come from an anydice name so it never collides"""
+        name = '_'.join(words)
+        only_params = all(w == 'X' for w in words)  # would collide with variables e.g. X or X_X
+        if name in CONST['function library']:
+            return name
+        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT or only_params or name in _FUNCS_MAY_COLLIDE:
+            return 'f__' + name
+        return name
+
     def _resolve_operand(self, node: Union['Node', 'str'], parent_op: str, is_left: bool) -> str:
         """Resolve an operand of a binary operator, wrap it in parentheses if python's precedence differs from anydice's"""
         result = self.resolve_node(node)
@@ -164,8 +169,6 @@ class PythonResolver:
             nameargs, code = node
             assert isinstance(nameargs, Node) and nameargs.type == NodeType.FUNCNAME_DEF, f'Error in parsing fuction node: {node}'
             func_name, func_args, func_arg_names = [], [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                func_name.append('f')
             for x in nameargs:  # nameargs is a list of strings and expressions e.g. [attack 3d6 if crit 6d6 and double crit 12d6]
                 assert isinstance(x, str) or (isinstance(x, Node) and x.type in (NodeType.PARAM, NodeType.PARAM_WITH_DTYPE)), f'Error in parsing function node: {node}'
                 if isinstance(x, str):
@@ -187,7 +190,7 @@ class PythonResolver:
                 fix_dups_in_args(func_args, func_arg_names)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_args.append('vars')
-            func_name = '_'.join(func_name)
+            func_name = self._python_func_name(func_name)
             self._defined_functions.add(func_name)
             self._user__defined_functions.append(func_name)
             func_decorator = CONST['func_decorator']
@@ -277,8 +280,6 @@ class PythonResolver:
             return f'{CONST["range"]}({l}, {r})'
         elif node.type == NodeType.CALL:
             name, args = [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                name.append('f')
             for x in node:
                 if isinstance(x, Node) and x.type == NodeType.CALL_EXPR:  # expression
                     args.append(self.resolve_node(x.val))
@@ -289,7 +290,7 @@ class PythonResolver:
                     assert False, f'Unknown node in call: {x}, parent: {node}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 args.append('vars')
-            name = '_'.join(name)
+            name = self._python_func_name(name)
             self._called_functions.add(name)
             return f'{name}({", ".join(args)})' if args else f'{name}()'
 
-- 
2.43.0


From 02cfe6a21c1ba2bb7182025faafce21a9c837bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 25/30] fix: reject a result outside of a function instead of
 generating invalid Python

---
 src/parser/python_resolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 139f8d6..293caeb 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -56,6 +56,7 @@ class PythonResolver:
         self._user__defined_functions: list[str] = []  # only used for error messages
         self._called_functions: set[str] = set()
         self._output_counter = 0
+        self._function_nesting = 0
         self.result_text: Union[str, None] = None
 
     def _check_nested_str(self, node):
@@ -198,9 +199,12 @@ class PythonResolver:
             func_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {python_var_name(n)}' for n in func_arg_names])) + '\n'
+            self._function_nesting += 1
             func_code += self._indent_resolve(code)
+            self._function_nesting -= 1
             return f'{func_decorator}\n{func_def}\n{func_code}' + '\n' * self.NEWLINES_AFTER_FUNCTION
         elif node.type == NodeType.RESULT:
+            assert self._function_nesting > 0, 'A result can only be given inside a function'
             return f'return {self.resolve_node(node.val)}'
 
         # CONDITIONALS IF
-- 
2.43.0


From 0019a1a427b4ff414c6a9db7b5f648fd37f3882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:16 +0000
Subject: [PATCH 26/30] fix: settings_reset inside a function call must not
 lift the function depth limit

---
 src/settings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/settings.py b/src/settings.py
index 43562be..8906f28 100644
--- a/src/settings.py
+++ b/src/settings.py
@@ -38,5 +38,7 @@ def settings_set(name, value):
 
 
 def settings_reset():
+  depth = SETTINGS['INTERNAL_CURR_DEPTH']  # not a setting: the function calls in progress are still in progress
   SETTINGS.clear()
   SETTINGS.update(DEFAULT_SETTINGS)
+  SETTINGS['INTERNAL_CURR_DEPTH'] = depth
-- 
2.43.0


From 241534e274ae7b5e725aebbb1ca343cf0bb3c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:58 +0000
Subject: [PATCH 27/30] fix: a function call can start with another function
 call as its first argument

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 032fb0b..659777c 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 3baed6e1c3b14b28b29b23092f1c4412bb421b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:18 +0000
Subject: [PATCH 28/30] fix: adding zero to a text outcome leaves it unchanged,
 so equal outcomes are grouped

---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 7662ec2..f95f812 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -38,6 +38,8 @@ class StringVal(MetaStr):
     newdict = self.data.copy()
     for key, val in other.data.items():
       newdict[key] = newdict.get(key, 0) + val
+    if len(newdict) > 1 and newdict.get(_CONST_COEF) == 0:  # "a" + 0 is "a"
+      del newdict[_CONST_COEF]
     return StringVal.from_paris(newdict)
 
   def __radd__(self, other):
-- 
2.43.0


From a91d7a5ea4bab60526f7cd3aac7ad193406ab696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 29/30] fix: text outcomes can be added to dice and sequences
 from the left

---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index f95f812..8f7ceb3 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -33,6 +33,8 @@ class StringVal(MetaStr):
     return len(self.keys) == 1 and re.match(r'^-?\d+(\.\d+)?$', self.keys[0])
 
   def __add__(self, other):
+    if not isinstance(other, (int, float, StringVal)):  # let RVs and Seqs handle the operation
+      return NotImplemented
     if not isinstance(other, StringVal):
       other = StringVal.from_const(other)
     newdict = self.data.copy()
-- 
2.43.0


From 38c5d86d246876f7d211ec56a0ff08e1271ebf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:46 +0000
Subject: [PATCH 30/30] fix: dice with weights too large for a float can be
 rolled

---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 257b88b..929cd18 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -5,7 +5,7 @@ import math
 
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
-from .randvar import RV
+from .randvar import RV, _INTERNAL_PROB_LIMIT_VALS
 from .settings import SETTINGS
 from . import blackrv
 
@@ -123,6 +123,7 @@ def _setup_str_LHS_RHS(n, d):
 
 def roller(rv: T_ifsr, count: Union[int, None] = None):
   rv = factory.get_rv(rv)
+  rv = _INTERNAL_PROB_LIMIT_VALS(copy.copy(rv))  # random.choices only accepts weights that fit in a float
   # roll using random.choices
   if count is None:
     return random.choices(rv.vals, rv.probs)[0]
-- 
2.43.0

