From 1a01fbf26c3bc08f9f9de663274b9397d0611879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 01/60] fix: integer division truncates as documented,
 consistent with the modulus operator

---
 modularcalculator/features/numerical/advancedarithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/advancedarithmetic.py b/modularcalculator/features/numerical/advancedarithmetic.py
index 7eb876f..ac43f35 100755
--- a/modularcalculator/features/numerical/advancedarithmetic.py
+++ b/modularcalculator/features/numerical/advancedarithmetic.py
@@ -51,6 +51,6 @@ class AdvancedArithmeticFeature(Feature):
     def op_number_integer_divide(self, vals, units, refs, flags):
         op = self.ops_list['/']
         division_result = op.call(self, [OperandResult(vals[0], units[0], None), OperandResult(vals[1], units[1], None)], flags)
-        res = OperationResult(math.floor(division_result.value))
+        res = OperationResult(math.trunc(division_result.value))
         res.set_unit(division_result.unit)
         return res
-- 
2.43.0


From ce3c0f3d98cadb2ac525a448b156b793899af94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 02/60] fix: display numbers that fill the configured size,
 without double rounding or negative zero

---
 modularcalculator/objects/number.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..e7f95f6 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -1,6 +1,6 @@
 #!/usr/bin/python3
 
-from decimal import Decimal, getcontext, InvalidOperation
+from decimal import Decimal, getcontext, localcontext, InvalidOperation
 from importlib import import_module
 import math
 
@@ -66,11 +66,14 @@ class Number:
                 calculator,
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
-        dec_num = self.to_decimal()
+        with localcontext() as context:
+            # Allow for the decimal places as well as the digits before the point, with enough digits to only round once
+            context.prec = max(context.prec, self.num.adjusted() + self.den.adjusted() + NUMBER['decimal_places'] + 4)
+            dec_num = round(self.to_decimal(), NUMBER['decimal_places'])
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+        val = "{0:f}".format(dec_num)
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From c727b1a07d7e3a8d54539d69e61d95905a1745b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 03/60] fix: white space in an empty argument list is not an
 argument, and errors after an empty argument are located exactly

---
 modularcalculator/features/structure/functionpointers.py | 7 +++++--
 modularcalculator/features/structure/functions.py        | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..e80b551 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -58,9 +58,9 @@ class FunctionPointersFeature(Feature):
                     inner_items, length, return_flags = self.parse(next[i:], {'func': func_pointer_name, 'ignore_terminators': True})
                     inner_items = inner_items[0]
                     i += length + 1
-                    if len(inner_items) > 0:
+                    if len(functional_items(inner_items)) > 0:
                         args.append(inner_items)
-                        func_items.extend(inner_items)
+                    func_items.extend(inner_items)
                     if 'end_func' in return_flags:
                         func_items.append(FunctionEndItem())
                     else:
@@ -99,6 +99,9 @@ class FunctionPointerItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            # Step over any empty arguments before this one
+            while self.items[itemsi] is not arg[0]:
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..5c6e0e0 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -50,9 +50,9 @@ class FunctionsFeature(Feature):
                         inner_items, length, return_flags = self.parse(next[i:], {'func': func, 'ignore_terminators': True})
                         inner_items = inner_items[0]
                         i += length + 1
-                        if len(inner_items) > 0:
+                        if len(functional_items(inner_items)) > 0:
                             args.append(inner_items)
-                            func_items.extend(inner_items)
+                        func_items.extend(inner_items)
                         if 'end_func' in return_flags:
                             func_items.append(FunctionEndItem())
                         else:
@@ -106,6 +106,9 @@ class FunctionItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            # Step over any empty arguments before this one
+            while self.items[itemsi] is not arg[0]:
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
-- 
2.43.0


From 42d87db5285215b365a2b8e8346d6115ceb1a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 04/60] fix: a failing statement ends an inline function, and
 its variables are restored however it ends

---
 .../features/structure/inlinefunctions.py     | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..58858d4 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -146,27 +146,25 @@ class InlineFunctionsPointerHandler:
             calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
 
         try:
-            statement_items = []
-            val = None
+            statements = [[]]
             for item in ref.items:
                 if item.desc() == 'terminator':
-                    if len(functional_items(statement_items)) > 0:
-                        val = calculator.execute(statement_items, flags.copy())
-                    statement_items = []
+                    statements.append([])
                 else:
-                    statement_items.append(item)
-            if len(functional_items(statement_items)) > 0:
-                val = calculator.execute(statement_items, flags.copy())
-            if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
-                raise val.value
+                    statements[-1].append(item)
 
-            # Restore calculator state
-            calculator.vars = backup_vars
+            val = None
+            for statement_items in statements:
+                if len(functional_items(statement_items)) > 0:
+                    val = calculator.execute(statement_items, flags.copy())
+                    if isinstance(val.value, Exception):
+                        raise val.value
+            if val is None:
+                raise ExecuteException("Inline function has no statements", [], None)
 
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        finally:
+            # Restore calculator state
             calculator.vars = backup_vars
-            raise err
-- 
2.43.0


From e3095ee6643a15e23cf01f0856e109070dc2b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 05/60] fix: parse the body of an inline function the same way
 inside brackets as outside

---
 modularcalculator/features/structure/inlinefunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 58858d4..fd88c95 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -35,7 +35,8 @@ class InlineFunctionsFeature(Feature):
     def parse_inline_function(self, expr, i, items, flags):
         next = expr[i:]
         if next.startswith('{'):
-            flags['inline_function'] = True
+            # The function body is parsed on its own terms, whatever brackets it is inside
+            flags = {'inline_function': True}
             inner_items, length, return_flags = None, None, None
             try:
                 inner_items, length, return_flags = self.parse(next[1:], flags)
-- 
2.43.0


From aa4fec9b702d3f070dd92c9cca69604d7286307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 06/60] fix: variables whose names begin with the range step
 keyword can be used in arrays

---
 modularcalculator/features/arrays/arrays.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index e3ba9b4..51f80d4 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -5,6 +5,8 @@ from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 from modularcalculator.features.feature import Feature
 
+import re
+
 
 class ArraysFeature(Feature):
 
@@ -129,6 +131,9 @@ class ArraysFeature(Feature):
 
         array = ('array' in flags.keys() and flags['array'])
         if array and len(next) >= len(symbol) and next[0:len(symbol)] == symbol:
+            if symbol.isalpha() and re.match(r'\w', next[len(symbol):]):
+                # This is a longer word that only begins with the symbol
+                return None, None, None
             return None, None, {'end': True, 'array_step': True}
 
         return None, None, None
-- 
2.43.0


From 2ebc996aa3d8bcc455cc5009a178ce87867f356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 07/60] fix: array ranges accept everything that is a number,
 convert units consistently and refuse a step of zero

---
 modularcalculator/features/arrays/arrays.py | 38 ++++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 51f80d4..019e389 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -233,9 +233,7 @@ class ArrayElement():
         else:
             return [element_result]
 
-        step_result = OperandResult(Number(1), element_result.unit, None)
-        if end_element_result is not None and end_element_result.value < element_result.value:
-            step_result = OperandResult(Number(-1), element_result.unit, None)
+        step_result = None
         if self.step is not None:
             state['items'] += 1
             step_result = calculator.execute(self.step, flags)
@@ -245,24 +243,30 @@ class ArrayElement():
                 raise ExecuteException("Arrays with range must be numerical", [], None)
             state['items'] += len(self.step)
 
-        if element_result.unit is not None or end_element_result.unit is not None or step_result.unit is not None:
-            if element_result.unit is None:
+        unit = element_result.unit
+        start = calculator.number(element_result.value).copy()
+        end = calculator.number(end_element_result.value)
+        step = calculator.number(step_result.value) if step_result is not None else None
+
+        right_units = [r.unit for r in (end_element_result, step_result) if r is not None]
+        if unit is not None or any(u is not None for u in right_units):
+            if unit is None or any(u is None for u in right_units):
                 raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-            for right_element in (end_element_result, step_result):
-                if right_element.unit is None:
-                    raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-                values, units, resultunit = calculator.unit_normaliser.normalise_inputs([element_result.value, right_element.value], [element_result.unit, right_element.unit], True, False)
-                right_element.value = values[1]
-                right_element.unit = units[1]
+            end, _ = calculator.unit_normaliser.unit_conversion(end, end_element_result.unit, unit, False)
+            if step is not None:
+                step, _ = calculator.unit_normaliser.unit_conversion(step, step_result.unit, unit, True)
+
+        if step is None:
+            step = Number(-1) if end < start else Number(1)
 
-        if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
-            raise ExecuteException("Can't get from {0} to {1} with step {2}".format(element_result.value, end_element_result.value, step_result.value), [], None)
+        if step == Number(0) or ((end - start) * step).to_decimal() < 0:
+            raise ExecuteException("Can't get from {0} to {1} with step {2}".format(start, end, step), [], None)
 
         array = []
-        n = element_result.value
-        while (step_result.value.to_decimal() > 0 and n <= end_element_result.value) or (step_result.value.to_decimal() < 0 and n >= end_element_result.value):
-            array.append(OperandResult(n, element_result.unit, None))
-            n += step_result.value
+        n = start
+        while (step.to_decimal() > 0 and n <= end) or (step.to_decimal() < 0 and n >= end):
+            array.append(OperandResult(n, unit.copy() if unit is not None else None, None))
+            n += step
         return array
 
 
-- 
2.43.0


From a2ed8a65bd6c13d887629542396df8d01974129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 08/60] fix: report expressions nested too deeply as a
 calculating error

---
 modularcalculator/engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..9a0c251 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -49,7 +49,10 @@ class Engine:
 
             try:
                 # Parse statements from expression
-                statements, length, return_flags = self.parse(expr, flags)
+                try:
+                    statements, length, return_flags = self.parse(expr, flags)
+                except RecursionError:
+                    raise ParsingException("Expression is nested too deeply", [[]], expr)
 
                 for i, items in enumerate(statements):
                     result = CalculatorResult(items_text(items), items)
@@ -77,6 +80,9 @@ class Engine:
                         except CalculatorException as err:
                             raise ExecutionException(err.message, statements[0:i] + [[]], None, False)
 
+                        except RecursionError:
+                            raise ExecutionException("Expression is nested too deeply", statements[0:i] + [[]], None, False)
+
                     response.add_result(result)
 
                     if 'include_state' in flags and flags['include_state']:
-- 
2.43.0


From fdda030d6503fa0dde4e32afe9d1ed3539391341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 09/60] fix: remember which statement continues on the next
 line by its items, not by their joined text

---
 modularcalculator/features/structure/terminator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..4dcb694 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -43,8 +43,8 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
-            if func_item_text == self.last_failed_terminator:
+            func_items_desc = [(item.desc(), item.text) for item in func_items]
+            if func_items_desc == self.last_failed_terminator:
                 return None, None, None
 
             backup_vars = self.vars.copy()
@@ -54,7 +54,7 @@ class TerminatorFeature(Feature):
             except ExecuteException as e:
                 if str(e.message).startswith('Missing right operands for operator '):
                     self.vars = backup_vars
-                    self.last_failed_terminator = func_item_text
+                    self.last_failed_terminator = func_items_desc
                     return None, None, None
             except Exception:
                 pass
-- 
2.43.0


From 49c31358c1c942b051968ac22185e223c48c8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 10/60] fix: setting the representation of a result does not
 change the operand it came from

---
 modularcalculator/objects/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..4b0d611 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+from copy import copy
 import re
 
 
@@ -211,6 +212,8 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    # The result could be one of the inputs itself, which must not change
+                    result_value = copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From e68ad261986afc1d4ca251aa45bd2bc208b7510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 11/60] fix: delete a variable that holds an array

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..88d77e3 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         self.vars = {}
-- 
2.43.0


From 323d0b3bab46fa3489ed7e9620da5427671d57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 12/60] fix: showing an array does not change the variable that
 holds it

---
 modularcalculator/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9a0c251..7e17566 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -330,10 +330,11 @@ class Engine:
     def finalize(self, answer):
         if answer is None:
             return None
+        # The answer could also be held in a variable, which must not change
+        answer = OperandResult(answer.value, answer.unit, answer.ref)
         if type(answer.value) == list:
             # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            answer.value = [self.finalize(ans) for ans in answer.value]
         else:
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
-- 
2.43.0


From da32d7b568c41afee4afe4fd268145d54d80d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 13/60] fix: simplify units of values too small or large for
 floating point

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..cef5b68 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -296,7 +296,7 @@ class UnitNormaliser:
         return value, unit
 
     def get_closeness(self, num):
-        closeness = abs(math.log10(abs(float(num))) - self.simplify_preferred_magnitude)
+        closeness = abs(float(abs(num.to_decimal()).log10()) - self.simplify_preferred_magnitude)
         if num < self.simplify_penalise_below:
             closeness *= self.simplify_penalty
         return closeness
-- 
2.43.0


From 265bd8e5de53686dae2ef7c5175c8b61c5a4caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 14/60] fix: numbers in arbitrary bases only accept legal
 digits, show and read back in every base, and base() gives a number

---
 .../features/numerical/arbitrarybasenumbers.py     |  7 ++++++-
 modularcalculator/features/numerical/bases.py      | 14 +++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/modularcalculator/features/numerical/arbitrarybasenumbers.py b/modularcalculator/features/numerical/arbitrarybasenumbers.py
index 0df176d..2d23fc6 100755
--- a/modularcalculator/features/numerical/arbitrarybasenumbers.py
+++ b/modularcalculator/features/numerical/arbitrarybasenumbers.py
@@ -55,7 +55,12 @@ class ArbitraryBaseFeature(Feature):
         return None, None, None
 
     def func_base(self, vals, units, refs, flags):
-        return OperationResult(ArbitraryBaseNumericalRepresentation.to_string(self, vals[0], int(vals[1])))
+        base = int(vals[1])
+        if base < 2 or base > 36:
+            raise CalculatorException("Base must be between 2 and 36")
+        num = vals[0].copy()
+        num.number_cast = {'to_string': ArbitraryBaseNumericalRepresentation.to_string, 'args': [base], 'base': base}
+        return OperationResult(num)
 
 
 class ArbitraryBaseNumericalRepresentation:
diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 421005d..f078b17 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -30,7 +30,7 @@ class BasesFeature(Feature):
     digits = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
     def number_remove_prefix(self, val, prefix):
-        return val.lower().replace(prefix, '')
+        return val.lower().replace(prefix, '', 1)
 
     def number_add_prefix(self, val, prefix):
         if val[0] == '-':
@@ -61,12 +61,8 @@ class BasesFeature(Feature):
         return ''.join(split_num)
 
     def base_to_dec(self, val, base):
-        if val == '0':
-            return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
-        if base == 10:
-            return Number(val)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
 
@@ -101,7 +97,7 @@ class BasesFeature(Feature):
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base == 10:
-            return val.to_string(self)
+            return Number(val.num, val.den).to_string(self)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
 
@@ -125,8 +121,8 @@ class BasesFeature(Feature):
                 places += 1
             power -= 1
 
-        if negative:
-            string = '-' + string
         if string.find('.') > -1:
-            string = string.rstrip('0')
+            string = string.rstrip('0').rstrip('.')
+        if negative and string != '0':
+            string = '-' + string
         return string
-- 
2.43.0


From d3b134c8025f5b20bc6f018e41eab00a2ed0f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 15/60] fix: compound assignment of an array gives the same as
 the plain assignment

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..3c2f956 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -50,7 +50,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_add,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -59,7 +59,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_subtract,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -68,7 +68,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_multiply,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -77,7 +77,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -86,7 +86,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_power,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -95,7 +95,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_modulus,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -104,7 +104,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_integer_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
 
     def op_var_increment(self, vals, units, refs, flags):
-- 
2.43.0


From dc87575de9bf541386f7f066dbf5d508c672a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:36 +0000
Subject: [PATCH 16/60] fix: the result of a compound assignment keeps the
 representation of the variable

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 3c2f956..87000ae 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -51,7 +51,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '-=',
@@ -60,7 +60,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '*=',
@@ -69,7 +69,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '/=',
@@ -78,7 +78,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '^=',
@@ -87,7 +87,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '%=',
@@ -96,7 +96,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             r'\=',
@@ -105,7 +105,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
 
     def op_var_increment(self, vals, units, refs, flags):
         return AssignmentOperatorsFeature.assignment_operator(self, '+', [vals[0], Number(1)], [units[0], None], [refs[0], None], flags)
-- 
2.43.0


From d0c50ead5d16b6bac862428c4026e8e0c316140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:19 +0000
Subject: [PATCH 17/60] fix: declared unit dimensions may come in any order and
 may name derived dimensions

---
 modularcalculator/services/unitnormaliser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index cef5b68..26a8ac0 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -401,6 +401,10 @@ class UnitNormaliser:
         return [(d.dimension, d.power) for d in dimensionlist]
 
     def check_unit_dimensions(self, unit, relationship):
-        unit_relationship = self.unit_to_relationship(unit)
-        expected_relationship = self.standardise_relationship(relationship.copy())
-        return unit_relationship == expected_relationship
+        if unit is None:
+            return False
+        expected = DimensionPowerList([
+            DimensionPower(n.dimension, n.power * d.power)
+            for d in self.relationship_to_dimensions(relationship)
+            for n in self.normalised_dimension(d.dimension)]).deduplicate()
+        return self.unit_normalised_dimensionlist(unit) == expected
-- 
2.43.0


From 14acc509244f4fc37717d9a9a0beb317e9437216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 18/60] fix: temperatures in compound units are converted as
 intervals

---
 modularcalculator/objects/units.py           |  3 +++
 modularcalculator/services/unitnormaliser.py | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c8ab9b2..cd2c668 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -353,6 +353,9 @@ class UnitPowerList(AbstractPowerList):
             return finalstrings
 
     def convert(self, num, power, relative):
+        # Only a unit on its own can be a point on a scale (eg: temperature), as part of any other unit it's an interval
+        if len(self.list()) != 1 or self.list()[0].power != Number(1):
+            relative = True
         for unitpower in self.list():
             num = unitpower.unit.convert(num, unitpower.power * power, relative)
         return num
diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 26a8ac0..f760670 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -241,15 +241,15 @@ class UnitNormaliser:
                                     else:
                                         replace_value = value
                                         for unitpower in unitsfound:
-                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), False)
-                                        replace_value = replace_unit.convert(replace_value, (power * multpower), False)
+                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), True)
+                                        replace_value = replace_unit.convert(replace_value, (power * multpower), True)
                                         if closest_value is None or self.get_closeness(replace_value) < self.get_closeness(closest_value):
                                             closest_unit = replace_unit
                                             closest_value = replace_value
                             if closest_unit is not None:
                                 for subunit in unitsfound:
-                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, False)
-                                value = unit.addandconvert(value, closest_unit, power * multpower, False)
+                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
+                                value = unit.addandconvert(value, closest_unit, power * multpower, True)
                                 found = True
                                 break
                     if found:
@@ -284,13 +284,13 @@ class UnitNormaliser:
                         for i in units_i:
                             if unit.list()[i].unit != replace_all_with_unit:
                                 power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, False)
+                                value = unit.removeandconvert(value, unit.list()[i].unit, power, True)
+                                value = unit.addandconvert(value, replace_all_with_unit, power, True)
                     else:
                         # Units cancel out
                         units_to_remove = [unit.list()[i] for i in units_i]
                         for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
+                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, True)
 
 
         return value, unit
-- 
2.43.0


From 06c9743b0bb6ba3e94146f310c9d277a6b2f752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 19/60] fix: simplifying units of which several have the same
 dimension

---
 modularcalculator/services/unitnormaliser.py | 36 ++++----------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index f760670..add1776 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -261,37 +261,13 @@ class UnitNormaliser:
 
         return value, unit.check_empty()
 
-    # Check if any remaining subunits are the same dimension
+    # Check if any remaining subunits are the same dimension, if so use the first of their units for all of them
     def dedupe(self, value, unit):
-        if len(unit.list()) > 1:
-            # Get list of dimensions and index of subunits
-            dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
-                if di[0] not in dimensions:
-                    dimensions[di[0]] = []
-                dimensions[di[0]].append(di[1])
-
-            for dimension in dimensions:
-                units_i = dimensions[dimension]
-                if len(units_i) > 1:
-                    # Need to de-dupe
-                    power = Number(0)
-                    for i in units_i:
-                        power += unit.list()[i].power
-                    if power.to_decimal() != 0:
-                        # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, True)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, True)
-                    else:
-                        # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
-                        for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, True)
-
+        for replace_unit in [u.unit for u in unit.list()]:
+            if unit.find(replace_unit) is not None:
+                for duplicate in [u.copy() for u in unit.list() if u.unit != replace_unit and u.unit.dimension == replace_unit.dimension]:
+                    value = unit.removeandconvert(value, duplicate.unit, duplicate.power, True)
+                    value = unit.addandconvert(value, replace_unit, duplicate.power, True)
 
         return value, unit
 
-- 
2.43.0


From d6cf8061e4836fffb8bd8668c55ffa1f32a3506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 20/60] fix: sizes of the US dram, acre, psi and parsec

---
 modularcalculator/features/unitdefinitions/area.py     | 2 +-
 modularcalculator/features/unitdefinitions/distance.py | 2 +-
 modularcalculator/features/unitdefinitions/pressure.py | 2 +-
 modularcalculator/features/unitdefinitions/volume.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/unitdefinitions/area.py b/modularcalculator/features/unitdefinitions/area.py
index 068dff0..4fa5697 100755
--- a/modularcalculator/features/unitdefinitions/area.py
+++ b/modularcalculator/features/unitdefinitions/area.py
@@ -30,7 +30,7 @@ class UnitDefinitionAcre(UnitDefinition):
 
     namelist = ['acres','acre']
     symbollist = ['ac']
-    unitscale = Number('4046.9')
+    unitscale = Number('4046.8564224')
     systems = ['us', 'uk']
     use_for_condense = False
 
diff --git a/modularcalculator/features/unitdefinitions/distance.py b/modularcalculator/features/unitdefinitions/distance.py
index c71d583..1354082 100755
--- a/modularcalculator/features/unitdefinitions/distance.py
+++ b/modularcalculator/features/unitdefinitions/distance.py
@@ -95,7 +95,7 @@ class UnitDefinitionParsec(UnitDefinition):
 
     namelist = ['parsecs','parsec']
     symbollist = ['pc']
-    unitscale = Number('30856775810000000')
+    unitscale = Number('30856775814913673')
     systems = ['asu']
 
 class UnitDefinitionInch(UnitDefinition):
diff --git a/modularcalculator/features/unitdefinitions/pressure.py b/modularcalculator/features/unitdefinitions/pressure.py
index 7053a5d..f834e86 100755
--- a/modularcalculator/features/unitdefinitions/pressure.py
+++ b/modularcalculator/features/unitdefinitions/pressure.py
@@ -46,5 +46,5 @@ class UnitDefinitionPSI(UnitDefinition):
 
     namelist = ['pound-force per square inch','pound-force per square inch']
     symbollist = ['psi']
-    unitscale = Number('6894.757')
+    unitscale = Number('4.4482216152605', '0.00064516')
     systems = ['us', 'uk']
diff --git a/modularcalculator/features/unitdefinitions/volume.py b/modularcalculator/features/unitdefinitions/volume.py
index bf2276a..c44beb4 100755
--- a/modularcalculator/features/unitdefinitions/volume.py
+++ b/modularcalculator/features/unitdefinitions/volume.py
@@ -87,7 +87,7 @@ class UnitDefinitionUKGallon(UnitDefinition):
 class UnitDefinitionUSDram(UnitDefinition):
 
     namelist = ['US drams','US dram']
-    unitscale = Number('0.00000184834559765625')
+    unitscale = Number('0.0000036966911953125')
     systems = ['us']
 
 class UnitDefinitionUSFluidOunce(UnitDefinition):
-- 
2.43.0


From 2c38d0e3750b78cc7aef367767dfef2465c91e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:50 +0000
Subject: [PATCH 21/60] =?UTF-8?q?fix:=20G=CE=A9=20is=20gigaohms=20rather?=
 =?UTF-8?q?=20than=20the=20gravitational=20constant=20times=20ohms?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 modularcalculator/features/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/layout.py b/modularcalculator/features/layout.py
index 64b8b2b..983d74d 100755
--- a/modularcalculator/features/layout.py
+++ b/modularcalculator/features/layout.py
@@ -23,8 +23,8 @@ parser_map = [
     'inner_expr_end',
     'inline_function',
     'inline_function_end',
-    'constant',
     'units',
+    'constant',
     'unitsystems',
     'numericalrepresentation',
     'array',
-- 
2.43.0


From e1ae06b3817e95b3460e767f3988d934c6d1afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:02 +0000
Subject: [PATCH 22/60] fix: units that cancel each other out leave a number

---
 .../features/numerical/basicarithmetic.py     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/basicarithmetic.py b/modularcalculator/features/numerical/basicarithmetic.py
index 41012e4..56360af 100755
--- a/modularcalculator/features/numerical/basicarithmetic.py
+++ b/modularcalculator/features/numerical/basicarithmetic.py
@@ -92,8 +92,7 @@ class BasicArithmeticFeature(Feature):
     def op_number_power(self, vals, units, refs, flags):
         power = vals[1]
         if isinstance(vals[0], UnitPowerList):
-            unit = vals[0].power(power)
-            return OperationResult(unit)
+            return BasicArithmeticFeature.unit_result(vals[0].power(power))
         num_res = vals[0] ** power
         res = OperationResult(num_res)
         if units[1] is not None:
@@ -105,8 +104,9 @@ class BasicArithmeticFeature(Feature):
     def op_number_multiply(self, vals, units, refs, flags):
         if isinstance(vals[0], UnitPowerList) and isinstance(vals[1], UnitPowerList):
             unit = UnitPowerList.new([vals[0], Number(1), vals[1], Number(1)])
-            unit.no_simplify = True
-            return OperationResult(unit)
+            if unit is not None:
+                unit.no_simplify = True
+            return BasicArithmeticFeature.unit_result(unit)
         for i in range(0, len(vals)):
             if isinstance(vals[i], UnitPowerList):
                 units[i] = vals[i]
@@ -126,8 +126,9 @@ class BasicArithmeticFeature(Feature):
     def op_number_divide(self, vals, units, refs, flags):
         if isinstance(vals[0], UnitPowerList) and isinstance(vals[1], UnitPowerList):
             unit = UnitPowerList.new([vals[0], Number(1), vals[1], Number(-1)])
-            unit.no_simplify = True
-            return OperationResult(unit)
+            if unit is not None:
+                unit.no_simplify = True
+            return BasicArithmeticFeature.unit_result(unit)
         for i in range(0, len(vals)):
             if isinstance(vals[i], UnitPowerList):
                 units[i] = vals[i]
@@ -151,3 +152,9 @@ class BasicArithmeticFeature(Feature):
 
     def op_number_subtract(self, vals, units, refs, flags):
         return OperationResult(vals[0] - vals[1])
+
+    def unit_result(unit):
+        # If the units cancelled each other out only a number is left
+        if unit is None:
+            return OperationResult(Number(1))
+        return OperationResult(unit)
-- 
2.43.0


From f7037312d7e57075c3e2355188d16f39f66ab6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 23/60] fix: simplifying units does not introduce fractional
 powers

---
 modularcalculator/services/unitnormaliser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index add1776..5415e4f 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -214,6 +214,9 @@ class UnitNormaliser:
                     found = False
                     for unitsfound in unitsfound_list:
                         multpower = min([unit.find(u.unit).power / u.power for u in unitsfound])
+                        if multpower > Number(1):
+                            # Only replace whole multiples, to not introduce fractional powers
+                            multpower = math.floor(multpower)
                         if (len(unitsfound) > 1) or (len(unit.list()) == 1 and unit.list()[0].power.to_decimal() < 0 and unit.list()[0].power == -(power * multpower)):
                             closest_unit = None
                             closest_value = None
-- 
2.43.0


From 89ffedd6525b9a57a9012919fe90a3abeb8bb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 24/60] fix: integer division of quantities in products of
 units

---
 modularcalculator/features/numerical/advancedarithmetic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/numerical/advancedarithmetic.py b/modularcalculator/features/numerical/advancedarithmetic.py
index ac43f35..e65328e 100755
--- a/modularcalculator/features/numerical/advancedarithmetic.py
+++ b/modularcalculator/features/numerical/advancedarithmetic.py
@@ -49,8 +49,7 @@ class AdvancedArithmeticFeature(Feature):
         return OperationResult(vals[0] % vals[1])
 
     def op_number_integer_divide(self, vals, units, refs, flags):
-        op = self.ops_list['/']
-        division_result = op.call(self, [OperandResult(vals[0], units[0], None), OperandResult(vals[1], units[1], None)], flags)
-        res = OperationResult(math.trunc(division_result.value))
-        res.set_unit(division_result.unit)
+        # Both inputs have the same unit, so none is left
+        res = OperationResult(math.trunc(vals[0] / vals[1]))
+        res.set_unit(None)
         return res
-- 
2.43.0


From c0fc75f4b92bca52dab4e14ed2c0a1b98164cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 25/60] fix: mean, median and mode are exact

---
 .../numerical/statisticalfunctions.py         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/statisticalfunctions.py b/modularcalculator/features/numerical/statisticalfunctions.py
index a91bd13..2cfe1ba 100755
--- a/modularcalculator/features/numerical/statisticalfunctions.py
+++ b/modularcalculator/features/numerical/statisticalfunctions.py
@@ -121,16 +121,23 @@ class StatisticalFunctionsFeature(Feature):
         return res
 
     def func_mean(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.mean(values)))
+        values = [v.value for v in vals[0]]
+        total = Number(0)
+        for v in values:
+            total += v
+        return OperationResult(total / Number(len(values)))
 
     def func_median(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.median(values)))
+        values = sorted([v.value for v in vals[0]])
+        middle = len(values) // 2
+        if len(values) % 2 == 1:
+            return OperationResult(values[middle])
+        return OperationResult((values[middle - 1] + values[middle]) / Number(2))
 
     def func_mode(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.mode(values)))
+        values = [v.value for v in vals[0]]
+        mode = statistics.mode([v.to_decimal() for v in values])
+        return OperationResult([v for v in values if v.to_decimal() == mode][0])
 
     def func_stdev(self, vals, units, refs, flags):
         values = [v.value.to_decimal() for v in vals[0]]
-- 
2.43.0


From fdc5a9dfc2815708e61ed4d0228427a5d3008323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 26/60] fix: operations in which all units of the second
 operand cancel out

---
 modularcalculator/services/unitnormaliser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 5415e4f..b708305 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -150,7 +150,8 @@ class UnitNormaliser:
                     for j in range(i + 1, len(values)):
                         if units[i] is not None and units[j] is not None:
                             values[i], units[i], values[j], units[j] = self.normalise_from_left(values[i], units[i].copy(), values[j], units[j].copy(), relative)
-                            values[i], units[i], values[j], units[j] = self.normalise_from_right(values[i], units[i].copy(), values[j], units[j].copy(), relative)
+                            if units[j] is not None:
+                                values[i], units[i], values[j], units[j] = self.normalise_from_right(values[i], units[i].copy(), values[j], units[j].copy(), relative)
             else:
                 for i in range(1, len(units)):
                     values[i], units[i] = self.unit_conversion(values[i], units[i], units[0], relative)
-- 
2.43.0


From 1edf801322bf54e5c53b79eb1857682acdb51a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 27/60] fix: simplifying units always ends

---
 modularcalculator/services/unitnormaliser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index b708305..e8eab23 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -199,7 +199,10 @@ class UnitNormaliser:
             powerlist = [Number(1), Number(-1)]
             replacedimensions_list = [self.normalised_dimension(d).multiply(p) for d in dimensions_list for p in powerlist]
 
-            while True:
+            # Stop when a unit comes up again, as several replacements could undo each other
+            seen = set()
+            while str(unit) not in seen:
+                seen.add(str(unit))
                 unitlist = self.get_subunit_list(unit)
                 systems = set([s for u in unitlist for s in u.unit.systems])
                 unitsfound_list_list = self.find_units_matching_dimensions(replacedimensions_list, unitlist)
-- 
2.43.0


From cfefb6bf61b02e147c553266b9bbfcc2d87465f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:55 +0000
Subject: [PATCH 28/60] fix: simplify units of zero when a unit is made of
 several

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index e8eab23..dc79cc1 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -242,7 +242,7 @@ class UnitNormaliser:
                                 else:
                                     if value.to_decimal() == 0:
                                         # Value is 0, so just get the simplest unit possible
-                                        if closest_unit is None or abs(replace_unit.unitscale.log(10)) < abs(closest_unit.unitscale.log(10)):
+                                        if closest_unit is None or abs(replace_unit.convertfrom(Number(1), True).log(10)) < abs(closest_unit.convertfrom(Number(1), True).log(10)):
                                             closest_unit = replace_unit
                                             closest_value = value
                                     else:
-- 
2.43.0


From 028ea436a5da1aef2017ddf64629454c082e16cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 29/60] fix: format temperatures and zero

---
 modularcalculator/features/units/unitfunctions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index d221f93..3371c94 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -72,6 +72,11 @@ class GeneralUnitFunctionsFeature(Feature):
         if len(systemunits) == 0:
             raise CalculatorException("No units in system {0} found for dimension {1}".format(system, singleunit.dimension))
         nonprefixedsystemunits = [s for s in systemunits if s.nameprefix is None]
+        if len([s for s in nonprefixedsystemunits if s.convertfrom(Number(0), False) != Number(0)]) > 0:
+            # Points on a scale (eg: temperature) can't be split into parts, so use just one unit
+            sameunit = [s for s in nonprefixedsystemunits if s.namelist[0] == singleunit.namelist[0]]
+            nonprefixedsystemunits = (sameunit + nonprefixedsystemunits)[0:1]
+            systemunits = [s for s in systemunits if s.namelist[0] == nonprefixedsystemunits[0].namelist[0]]
 
         parts = []
         for systemunit in nonprefixedsystemunits:
@@ -95,6 +100,9 @@ class GeneralUnitFunctionsFeature(Feature):
                 if num_of_unit.to_decimal() != 0:
                     parts.append("{0} {1}".format(num_of_unit.to_string(self), unit.get_name(num_of_unit)))
 
+        if len(parts) == 0:
+            parts.append("{0} {1}".format(num.to_string(self), nonprefixedsystemunits[-1].get_name(num)))
+
         res = OperationResult(str.join(', ', parts))
         res.set_unit(None)
         return res
-- 
2.43.0


From 4a2db163f8e6fa923908eee2fe31849629aa4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 30/60] fix: element refuses indexes outside the array and
 keeps the element's representation

---
 modularcalculator/features/arrays/arrayfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/arrays/arrayfunctions.py b/modularcalculator/features/arrays/arrayfunctions.py
index 6d63d1a..12c2ddd 100755
--- a/modularcalculator/features/arrays/arrayfunctions.py
+++ b/modularcalculator/features/arrays/arrayfunctions.py
@@ -46,6 +46,7 @@ class ArrayFunctionsFeature(Feature):
             2)
         calculator.funcs['element'].add_value_restriction(0, 0, ['array'])
         calculator.funcs['element'].add_value_restriction(1, 1, ['number'])
+        calculator.funcs['element'].auto_convert_numerical_result = False
 
         calculator.funcs['filter'] = FunctionDefinition(
             'Arrays',
@@ -96,6 +97,8 @@ class ArrayFunctionsFeature(Feature):
     def func_array_element(self, vals, units, refs, flags):
         array = vals[0]
         index = int(vals[1]) - 1
+        if index < 0 or index >= len(array):
+            raise CalculatorException("Array has no element {0}".format(vals[1].to_string(self)))
         element = array[index]
         res =  OperationResult(element.value)
         res.set_unit(element.unit)
-- 
2.43.0


From e85842430a1a606aed1918691cdb1b53ab109c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:47 +0000
Subject: [PATCH 31/60] fix: bitwise negation of zero and of numbers in strings

---
 modularcalculator/features/numerical/bitwiseoperators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index fac5101..38af8c9 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -7,7 +7,6 @@ from modularcalculator.features.feature import Feature
 from modularcalculator.features.numerical.bases import BasesFeature
 from modularcalculator.features.numerical.binarynumbers import BinaryNumbersFeature
 
-import math
 
 
 class BitwiseOperatorsFeature(Feature):
@@ -110,9 +109,9 @@ class BitwiseOperatorsFeature(Feature):
         if hasattr(dec_num, 'binary_number_width'):
             mask_val = 2**dec_num.binary_number_width - 1
         else:
-            mask_val = 2**math.ceil(math.log(int_val, 2)) - 1
+            mask_val = 2**max(int_val.bit_length(), 1) - 1
         flipped_val = ~int_val
-        masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
+        masked_flipped_val = Number(flipped_val & mask_val, number_cast=dec_num.number_cast)
 
         masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
 
-- 
2.43.0


From 8317da1d7b7e3f9af576547ac89c44f8eed97e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 32/60] fix: malformed input types of an external function are
 a calculator error

---
 .../features/structure/externalfunctions.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c646dbe..b055b10 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -77,16 +77,19 @@ class ExternalFunctionsPointerHandler:
 
                 # If type has a colon, first part is value type, second is unit dimensions
                 if ':' in value:
-                    value, units_string = value.split(':')
+                    value, units_string = value.split(':', 1)
 
                     # Multiple unit[^power] dimensions can be provided for an input, comma separated
                     units = []
                     for unit in units_string.split(','):
                         # If unit dimension has a power, parse it, otherwise power defaults to 1
                         if unit is not None and '^' in unit:
-                            unit_unit, unit_power = unit.split('^')
+                            unit_unit, unit_power = unit.split('^', 1)
                             units.append(unit_unit)
-                            units.append(int(unit_power))
+                            try:
+                                units.append(int(unit_power))
+                            except ValueError:
+                                raise ExecuteException("Invalid input type '{}' in file '{}'".format(unit, path), [], None)
                         else:
                             units.append(unit)
                             units.append(1)
-- 
2.43.0


From 53bf83822b0f1e1fcead23c2260116eab7e63d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 33/60] fix: a variable that does not exist is not the text
 None

---
 modularcalculator/features/strings/strings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index c533a58..e2e1468 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -91,6 +91,9 @@ class StringsFeature(Feature):
         return str(val)
 
     def validate_string(self, value, unit, ref):
+        if value is None:
+            # A variable that doesn't exist
+            return False
         try:
             if isinstance(value, Number):
                 value.to_string(self)
-- 
2.43.0


From 8601001adaf126a77cbbeea2123d182d68e95f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 34/60] fix: lstrip, substr and join accept numbers like the
 other string functions

---
 modularcalculator/features/strings/stringarrayfunctions.py | 2 +-
 modularcalculator/features/strings/stringfunctions.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/strings/stringarrayfunctions.py b/modularcalculator/features/strings/stringarrayfunctions.py
index 08d4a07..57d5230 100755
--- a/modularcalculator/features/strings/stringarrayfunctions.py
+++ b/modularcalculator/features/strings/stringarrayfunctions.py
@@ -57,6 +57,6 @@ class StringArrayFunctionsFeature(Feature):
     def func_join(self, vals, units, refs, flags):
         delimiter = ''
         if len(vals) > 1:
-            delimiter = vals[1]
+            delimiter = StringsFeature.string(self, vals[1])
         values = [StringsFeature.string(self, v.value) for v in vals[0]]
         return OperationResult(delimiter.join(values))
diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 81465c8..69d95ef 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -128,7 +128,7 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).upper())
 
     def func_lstrip(self, vals, units, refs, flags):
-        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(vals[1]))
+        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(StringsFeature.string(self, vals[1])))
 
     def func_rstrip(self, vals, units, refs, flags):
         return OperationResult(StringsFeature.string(self, vals[0]).rstrip(StringsFeature.string(self, vals[1])))
@@ -149,7 +149,7 @@ class StringFunctionsFeature(Feature):
         elif len(vals) == 3:
             end = int(vals[2]) + 1
             if end <= 0:
-                end += len(vals[0])
+                end += len(StringsFeature.string(self, vals[0]))
             return OperationResult(StringsFeature.string(self, vals[0])[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From ddcb137fc2400e26d816573bb11584e77b333b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 35/60] fix: regexget refuses match numbers out of range and
 gives arrays for several groups

---
 modularcalculator/features/strings/regex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/regex.py b/modularcalculator/features/strings/regex.py
index 0f98e16..3aa866d 100755
--- a/modularcalculator/features/strings/regex.py
+++ b/modularcalculator/features/strings/regex.py
@@ -98,9 +98,13 @@ class RegexFeature(Feature):
 
     def func_regexget(self, vals, units, refs, flags):
         found = re.findall(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0]))
+        # A pattern with several groups finds an array of texts each time
+        found = [[OperandResult(g, None, None) for g in f] if isinstance(f, tuple) else f for f in found]
         if len(vals) == 3:
             group = int(vals[2]) - 1
-            return OperationResult(found[int(group)])
+            if group < 0 or group >= len(found):
+                raise CalculatorException("Pattern has no match {0}".format(vals[2].to_string(self)))
+            return OperationResult(found[group])
         found = [OperandResult(f, None, None) for f in found]
         return OperationResult(found)
 
-- 
2.43.0


From 7cd5ec50d4e350a22098bce37b2722cb17db47c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 36/60] fix: dates keep microseconds when durations and
 differences are long

---
 modularcalculator/features/dates/datefunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index dba4109..f5e677d 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -9,6 +9,7 @@ from modularcalculator.objects.operators import OperationResult
 from modularcalculator.features.feature import Feature
 
 from datetime import *
+from fractions import Fraction
 
 
 date_format = 'Human Readable Date Format'
@@ -132,7 +133,7 @@ class DateFunctionsFeature(Feature):
         num, fromunit = vals[1], units[1]
         tounit = self.unit_normaliser.get_unit('seconds')
         seconds, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
-        td = timedelta(seconds=float(seconds))
+        td = timedelta(microseconds=round(Fraction(int(seconds.num), int(seconds.den)) * 1000000))
 
         dt += td
 
@@ -150,7 +151,7 @@ class DateFunctionsFeature(Feature):
             raise CalculatorException("Cannot compare dates with timezones and dates without timezones")
         td = abs(date1 - date2)
 
-        seconds = Number(str(td.total_seconds()))
+        seconds = Number(td // timedelta(microseconds=1), 1000000)
         seconds = round(seconds, min(6, getcontext().prec))
         fromunit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         tounit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
-- 
2.43.0


From 692ff1830fab2a12cb5366a93e23bb427f3aab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 37/60] fix: years before 1000 keep four digits when the time
 zone has seconds

---
 modularcalculator/features/dates/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/dates/dates.py b/modularcalculator/features/dates/dates.py
index 28a4f7b..6e45ebe 100755
--- a/modularcalculator/features/dates/dates.py
+++ b/modularcalculator/features/dates/dates.py
@@ -96,7 +96,7 @@ class DatesFeature(Feature):
     def date_to_string(self, dt):
         dt_format, dt_padding = DatesFeature.correct_format_for_date(self, dt)
         return format(
-            dt.strftime(self.feature_options['dates.dates'][dt_format]), 
+            dt.strftime(self.feature_options['dates.dates'][dt_format].replace('%Y', '{:04d}'.format(dt.year))),
             self.feature_options['dates.dates'][dt_padding])
 
     def validate_date(self, value, unit, ref):
-- 
2.43.0


From cfb3bc97b5476ea7f63e8256f5c2a8d411653df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 38/60] fix: units that cancel each other out are still grouped
 as units

---
 modularcalculator/engine.py                             | 4 +++-
 modularcalculator/features/numerical/basicarithmetic.py | 8 ++++----
 modularcalculator/objects/items.py                      | 7 +++++++
 modularcalculator/objects/operators.py                  | 3 +++
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 7e17566..6d382b9 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -231,7 +231,9 @@ class Engine:
 
             if isinstance(items[0].value, CalculateException):
                 items[0].value = self.restore_non_functional_items(items[0].value, original_items, very_original_items)
-            return items[0]
+            if 'fake_execution' in flags:
+                return items[0]
+            return items[0].without_empty_unit()
         except CalculateException as err:
             raise self.restore_non_functional_items(err, original_items, very_original_items)
 
diff --git a/modularcalculator/features/numerical/basicarithmetic.py b/modularcalculator/features/numerical/basicarithmetic.py
index 56360af..1abb793 100755
--- a/modularcalculator/features/numerical/basicarithmetic.py
+++ b/modularcalculator/features/numerical/basicarithmetic.py
@@ -109,7 +109,7 @@ class BasicArithmeticFeature(Feature):
             return BasicArithmeticFeature.unit_result(unit)
         for i in range(0, len(vals)):
             if isinstance(vals[i], UnitPowerList):
-                units[i] = vals[i]
+                units[i] = vals[i].check_empty()
                 vals[i] = Number(1)
 
         res = OperationResult(vals[0] * vals[1])
@@ -131,7 +131,7 @@ class BasicArithmeticFeature(Feature):
             return BasicArithmeticFeature.unit_result(unit)
         for i in range(0, len(vals)):
             if isinstance(vals[i], UnitPowerList):
-                units[i] = vals[i]
+                units[i] = vals[i].check_empty()
                 vals[i] = Number(1)
 
         res = OperationResult(vals[0] / vals[1])
@@ -154,7 +154,7 @@ class BasicArithmeticFeature(Feature):
         return OperationResult(vals[0] - vals[1])
 
     def unit_result(unit):
-        # If the units cancelled each other out only a number is left
+        # Units that cancelled each other out are still grouped as units in the rest of the expression
         if unit is None:
-            return OperationResult(Number(1))
+            unit = UnitPowerList()
         return OperationResult(unit)
diff --git a/modularcalculator/objects/items.py b/modularcalculator/objects/items.py
index 02f84ee..01f1a92 100755
--- a/modularcalculator/objects/items.py
+++ b/modularcalculator/objects/items.py
@@ -2,6 +2,7 @@
 
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
+from modularcalculator.objects.units import *
 
 
 def previous_functional_item(items, i=None):
@@ -161,6 +162,12 @@ class OperandResult:
     def __str__(self):
         raise Exception("Use to_string(calculator)")
 
+    def without_empty_unit(self):
+        # Units that all cancelled each other out are just a number
+        if isinstance(self.value, UnitPowerList) and self.value.check_empty() is None:
+            return OperandResult(Number(1), None, self.ref)
+        return self
+
     def to_string(self, calculator=None):
         if isinstance(self.value, Number):
             value_str = self.value.to_string(calculator)
diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 4b0d611..7f754f2 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -157,6 +157,9 @@ class Operation:
 
             try:
 
+                # Where a unit is not expected, units that cancelled each other out are just a number
+                inputs = [i if self.input_can_be_type(index, 'unit') else i.without_empty_unit() for index, i in enumerate(inputs)]
+
                 # Validate the values and units for this operation
                 values = [i.value for i in inputs]
                 units = [i.unit for i in inputs]
-- 
2.43.0


From a6b9ad381daefc12a9a7c71af3d58235a307689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 39/60] fix: logarithms use their base exactly

---
 modularcalculator/features/numerical/numericalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/numericalfunctions.py b/modularcalculator/features/numerical/numericalfunctions.py
index 61a9b9f..416643e 100755
--- a/modularcalculator/features/numerical/numericalfunctions.py
+++ b/modularcalculator/features/numerical/numericalfunctions.py
@@ -173,7 +173,7 @@ class NumericalFunctionsFeature(Feature):
         if len(vals) == 1:
             res = OperationResult(num.log())
         else:
-            res = OperationResult(num.log(float(vals[1])))
+            res = OperationResult(num.log(vals[1].to_decimal()))
         res.set_unit(units[0])
         return res
 
-- 
2.43.0


From d3e842b4a196bd3b7a94ab2266097d2a3a469f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 40/60] fix: each calculator keeps its own size, precision and
 rounding

---
 modularcalculator/modularcalculator.py |  2 ++
 modularcalculator/numericalengine.py   | 10 ++++++++++
 modularcalculator/objects/number.py    | 20 +++++++++++++-------
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a350181..fc63403 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -75,6 +75,8 @@ class ModularCalculator(NumericalEngine):
         return self.feature_list
 
     def install_features(self, names, debug=False, skipMissing=False):
+        self.use_number_settings()
+
         if isinstance(names, str):
             names = [names]
 
diff --git a/modularcalculator/numericalengine.py b/modularcalculator/numericalengine.py
index 5610cae..0902f15 100755
--- a/modularcalculator/numericalengine.py
+++ b/modularcalculator/numericalengine.py
@@ -38,6 +38,16 @@ class NumericalEngine(Engine):
 
     def number_set_rounding(self, rounding):
         Number.set_rounding(rounding)
+        self.number_rounding = rounding
+
+    def use_number_settings(self):
+        # The settings belong to the process or thread, so another calculator could have set its own
+        self.update_engine_prec()
+        Number.set_rounding(self.number_rounding)
+
+    def calculate(self, expr, flags=None):
+        self.use_number_settings()
+        return super().calculate(expr, flags)
 
     def number(self, val):
         if isinstance(val, Number):
diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index e7f95f6..489cd5b 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -61,15 +61,21 @@ class Number:
     def to_string(self, calculator=None):
         if calculator is not None:
             assert calculator.__class__.__name__ == "ModularCalculator", "{} != {}".format(calculator.__class__.__name__, "ModularCalculator")
-        if hasattr(self, 'number_cast') and self.number_cast is not None and 'to_string' in self.number_cast:
-            return self.number_cast['to_string'](
-                calculator,
-                self,
-                *(self.number_cast['args'] if 'args' in self.number_cast else []))
         with localcontext() as context:
+            places = NUMBER['decimal_places']
+            if calculator is not None:
+                # Another calculator, or a different thread, could have other settings
+                context.prec = calculator.number_size_get()
+                context.rounding = calculator.number_rounding
+                places = calculator.number_prec_get()
+            if hasattr(self, 'number_cast') and self.number_cast is not None and 'to_string' in self.number_cast:
+                return self.number_cast['to_string'](
+                    calculator,
+                    self,
+                    *(self.number_cast['args'] if 'args' in self.number_cast else []))
             # Allow for the decimal places as well as the digits before the point, with enough digits to only round once
-            context.prec = max(context.prec, self.num.adjusted() + self.den.adjusted() + NUMBER['decimal_places'] + 4)
-            dec_num = round(self.to_decimal(), NUMBER['decimal_places'])
+            context.prec = max(context.prec, self.num.adjusted() + self.den.adjusted() + places + 4)
+            dec_num = round(self.to_decimal(), places)
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-- 
2.43.0


From ea7b84e8af87c070982621d81a18b57af6343502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 41/60] fix: features declare all the features they need

---
 modularcalculator/features/boolean/booleans.py                  | 2 +-
 modularcalculator/features/dates/datefunctions.py               | 2 +-
 modularcalculator/features/dates/dateoperators.py               | 2 +-
 modularcalculator/features/numerical/numericalrepresentation.py | 2 +-
 modularcalculator/features/strings/regex.py                     | 2 +-
 modularcalculator/features/strings/stringcomparison.py          | 2 +-
 modularcalculator/features/strings/strings.py                   | 2 +-
 modularcalculator/features/structure/externalfunctions.py       | 2 +-
 modularcalculator/features/units/units.py                       | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/modularcalculator/features/boolean/booleans.py b/modularcalculator/features/boolean/booleans.py
index a9d34ae..7a5a68b 100755
--- a/modularcalculator/features/boolean/booleans.py
+++ b/modularcalculator/features/boolean/booleans.py
@@ -24,7 +24,7 @@ class BooleansFeature(Feature):
         return 'Boolean type'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index f5e677d..3fbce87 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -41,7 +41,7 @@ class DateFunctionsFeature(Feature):
         return 'Functions to create and manipulate dates'
 
     def dependencies():
-        return ['dates.dates','structure.functions']
+        return ['dates.dates','structure.functions','unitdefinitions.time']
 
     def default_options():
         return {
diff --git a/modularcalculator/features/dates/dateoperators.py b/modularcalculator/features/dates/dateoperators.py
index 7ae01f2..9715180 100755
--- a/modularcalculator/features/dates/dateoperators.py
+++ b/modularcalculator/features/dates/dateoperators.py
@@ -20,7 +20,7 @@ class DateOperatorsFeature(Feature):
         return 'Operators to easily add/subtract time periods to dates'
 
     def dependencies():
-        return ['dates.dates','structure.operators']
+        return ['dates.dates','structure.operators','unitdefinitions.time']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/numerical/numericalrepresentation.py b/modularcalculator/features/numerical/numericalrepresentation.py
index e6d1637..9599625 100644
--- a/modularcalculator/features/numerical/numericalrepresentation.py
+++ b/modularcalculator/features/numerical/numericalrepresentation.py
@@ -19,7 +19,7 @@ class NumericalRepresentationFeature(Feature):
         return 'Ability to represent numbers in different forms'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/strings/regex.py b/modularcalculator/features/strings/regex.py
index 3aa866d..0cb7cbe 100755
--- a/modularcalculator/features/strings/regex.py
+++ b/modularcalculator/features/strings/regex.py
@@ -26,7 +26,7 @@ class RegexFeature(Feature):
         return 'Functions for regular expressions'
 
     def dependencies():
-        return ['strings.strings','structure.functions','arrays.arrays']
+        return ['strings.strings','structure.functions','structure.operators','arrays.arrays']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/strings/stringcomparison.py b/modularcalculator/features/strings/stringcomparison.py
index bf1525c..119e1f3 100755
--- a/modularcalculator/features/strings/stringcomparison.py
+++ b/modularcalculator/features/strings/stringcomparison.py
@@ -20,7 +20,7 @@ class StringComparisonFeature(Feature):
         return 'Eg: <=$, ==$, !=$'
 
     def dependencies():
-        return ['strings.strings', 'boolean.booleans']
+        return ['strings.strings', 'boolean.booleans', 'structure.operators']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index e2e1468..b072afc 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -22,7 +22,7 @@ class StringsFeature(Feature):
         return 'String type'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     def default_options():
         return {
diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index b055b10..c0c3338 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -27,7 +27,7 @@ class ExternalFunctionsFeature(Feature):
         return 'Enables functions defined by the user'
 
     def dependencies():
-        return ['structure.functionpointers', 'strings.strings', 'structure.terminator']
+        return ['structure.functionpointers', 'strings.strings', 'structure.terminator', 'nonfunctional.comments']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 6d4f4b7..45e2c7e 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -23,7 +23,7 @@ class UnitsFeature(Feature):
         return 'Units base feature'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     @classmethod
     def install(cls, calculator):
-- 
2.43.0


From bbf9a7e3a4f1cd8fea8737dfdcf8ffefa4221508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 42/60] fix: statements and state work without variables
 installed

---
 modularcalculator/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 6d382b9..26dc989 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -15,6 +15,7 @@ class Engine:
         self.parsers = []
         self.ops = []
         self.finalizers = []
+        self.vars = {}
         self.validators = {'exception': Engine.validate_exception}
 
         self.multiply_op = None
-- 
2.43.0


From 9bfe586b0ef6f73f696c0dd4d831ce9189bde674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 43/60] fix: values left over in a statement are reported
 without crashing

---
 modularcalculator/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 26dc989..7f89328 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -226,7 +226,7 @@ class Engine:
                 if len(ops) > 0:
                     item_index = ops[0]._INDEX
                     raise ExecuteException("Could not execute operator: {0}".format(ops[0].text), original_items[0:item_index], None)
-                raise ExecuteException("Not one item left: {0}".format([str(item) for item in items]), original_items[0:item_index], None)
+                raise ExecuteException("Not one item left: {0}".format([item.to_string(self) for item in items]), original_items[0:item_index], None)
             if not isinstance(items[0], OperandResult):
                 raise ExecuteException("Not a value: \"{0}\"".format(str(items[0])), original_items[0:items[0]._INDEX], None)
 
-- 
2.43.0


From e5520d5ff91146d77e2fbc6ba3842f1237b78930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 44/60] fix: an unknown feature is reported as a calculator
 error

---
 modularcalculator/modularcalculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index fc63403..4fb98fd 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python3
 
 from modularcalculator.objects import *
+from modularcalculator.objects.exceptions import CalculatorException
 from modularcalculator.numericalengine import NumericalEngine
 import modularcalculator.features.layout
 import modularcalculator.features.presets
@@ -122,6 +123,8 @@ class ModularCalculator(NumericalEngine):
     def add_feature_to_be_installed(self, name):
         if name in self.features_to_install:
             return
+        if name not in self.feature_list:
+            raise CalculatorException("Feature {0} not found".format(name))
         self.features_to_install.add(name)
         feature = self.feature_list[name]
         dependencies = feature.dependencies()
-- 
2.43.0


From fa0b083cf94b4c0d8e1fc385206d20bde99e0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 45/60] fix: assignment operators declare the arithmetic they
 use

---
 modularcalculator/features/state/assignmentoperators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 87000ae..c60247a 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -23,7 +23,7 @@ class AssignmentOperatorsFeature(Feature):
         return '++, += etc'
 
     def dependencies():
-        return ['state.assignment', 'structure.operators']
+        return ['state.assignment', 'structure.operators', 'numerical.basicarithmetic', 'numerical.advancedarithmetic']
 
     @classmethod
     def install(cls, calculator):
-- 
2.43.0


From 4d594b5761faf64ab1919930cd3cc8af45048931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 46/60] fix: stateless evaluation gives the results that normal
 evaluation gives

---
 .../features/state/assignmentfunctions.py            |  8 ++++++--
 .../features/state/assignmentoperators.py            | 12 ++++++------
 .../features/structure/inlinefunctions.py            |  4 ++++
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 88d77e3..fd7c8a6 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -46,13 +46,17 @@ class AssignmentFunctionsFeature(Feature):
             'variable')
 
     def func_reset(self, vals, units, refs, flags):
-        self.vars = {}
+        if 'stateless' not in flags.keys() or not flags['stateless']:
+            self.vars = {}
         return OperationResult(None)
 
     def func_delete(self, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
             varname = refs[0].var
-            del self.vars[varname]
+            if varname not in self.vars:
+                raise CalculatorException("Variable {} not found".format(varname))
+            if 'stateless' not in flags.keys() or not flags['stateless']:
+                del self.vars[varname]
             return OperationResult(None)
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index c60247a..e4f859c 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -136,14 +136,14 @@ class AssignmentOperatorsFeature(Feature):
 
     def assignment_operator(self, sym, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
+            varname = refs[0].var
+            var = self.vars[varname]
+            op = self.ops_list[sym]
+            op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
             if 'stateless' not in flags.keys() or not flags['stateless']:
-                varname = refs[0].var
-                var = self.vars[varname]
-                op = self.ops_list[sym]
-                op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
                 self.vars[varname] = (op_result.value, op_result.unit)
-            res = OperationResult(self.vars[varname][0])
-            res.set_unit(self.vars[varname][1])
+            res = OperationResult(op_result.value)
+            res.set_unit(op_result.unit)
             return res
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index fd88c95..a3a4691 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -142,6 +142,10 @@ class InlineFunctionsPointerHandler:
         # Back up the calculator state
         backup_vars = dict(calculator.vars)
 
+        # The function's own variables never outlive it, so it always needs them
+        flags = flags.copy()
+        flags['stateless'] = False
+
         # For each input, set it in the calculator state as a variable called "PARAM" + n
         for i in range(0, len(vals)):
             calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
-- 
2.43.0


From 4ab7f1d372c50589c559349367b8df2b21c6a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 47/60] fix: trigonometric functions respect the unit of the
 angle

---
 .../features/numerical/trigonometryfunctions.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/trigonometryfunctions.py b/modularcalculator/features/numerical/trigonometryfunctions.py
index ab757e1..88c6447 100755
--- a/modularcalculator/features/numerical/trigonometryfunctions.py
+++ b/modularcalculator/features/numerical/trigonometryfunctions.py
@@ -138,14 +138,25 @@ class TrigonometryFunctionsFeature(Feature):
             'number')
 
 
+    def of_angle(self, func, val, unit):
+        # An angle in a unit is converted to radians, and the result is just a number
+        is_angle = (unit is not None and 'angle' in self.unit_normaliser.dimensions
+            and self.unit_normaliser.check_unit_dimensions(unit, ['angle', 1]))
+        if is_angle:
+            val = unit.convertfrom(val, True)
+        res = OperationResult(Number(Decimal(func(val))))
+        if is_angle:
+            res.set_unit(None)
+        return res
+
     def func_sin(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.sin(vals[0]))))
+        return TrigonometryFunctionsFeature.of_angle(self, math.sin, vals[0], units[0])
 
     def func_cos(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.cos(vals[0]))))
+        return TrigonometryFunctionsFeature.of_angle(self, math.cos, vals[0], units[0])
 
     def func_tan(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.tan(vals[0]))))
+        return TrigonometryFunctionsFeature.of_angle(self, math.tan, vals[0], units[0])
 
     def func_asin(self, vals, units, refs, flags):
         return OperationResult(Number(Decimal(math.asin(vals[0]))))
-- 
2.43.0


From d96f9a80ae65087ea38a7945a48cb799ff8d6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 48/60] fix: special functions keep the fraction of real
 arguments beside integer ones

---
 modularcalculator/features/numerical/specialfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/specialfunctions.py b/modularcalculator/features/numerical/specialfunctions.py
index a016e9b..f82d649 100644
--- a/modularcalculator/features/numerical/specialfunctions.py
+++ b/modularcalculator/features/numerical/specialfunctions.py
@@ -288,8 +288,9 @@ class SpecialFunctionsFeature(Feature):
             out = out[o]
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
 
+    # All parameters but the last are integers
     def func_int_params(f, o, self, vals, units, refs, flags):
-        out = f(*[int(v) for v in vals])
+        out = f(*[int(v) for v in vals[:-1]], float(vals[-1]))
         if o is not None:
             out = out[o]
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
-- 
2.43.0


From ba34bcdf2f275713776503214ae6fdf31146e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 49/60] fix: parameters of sp_nrdtrimn and sp_nrdtrisd are
 named in the order they are read

---
 modularcalculator/features/numerical/specialfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/specialfunctions.py b/modularcalculator/features/numerical/specialfunctions.py
index f82d649..a109798 100644
--- a/modularcalculator/features/numerical/specialfunctions.py
+++ b/modularcalculator/features/numerical/specialfunctions.py
@@ -116,8 +116,8 @@ class SpecialFunctionsFeature(Feature):
         af('nctdtrit', "Noncentral t distribution - Inverse cumulative distribution function of the non-central t distribution", ['df', 'nc', 'p'])
         af('nctdtrinc', "Noncentral t distribution - Calculate non-centrality parameter for non-central t distribution", ['df', 'p', 't'])
 
-        af('nrdtrimn', "Normal distribution - Calculate mean of normal distribution given other params", ['p', 'x', 'std'])
-        af('nrdtrisd', "Normal distribution - Calculate standard deviation of normal distribution given other params", ['p', 'x', 'mn'])
+        af('nrdtrimn', "Normal distribution - Calculate mean of normal distribution given other params", ['p', 'std', 'x'])
+        af('nrdtrisd', "Normal distribution - Calculate standard deviation of normal distribution given other params", ['mn', 'p', 'x'])
         af('ndtr', "Normal distribution - Cumulative distribution of the standard normal distribution", ['x'])
         af('log_ndtr', "Normal distribution - Logarithm of Gaussian cumulative distribution function", ['x'])
         af('ndtri', "Normal distribution - Inverse of ndtr vs x", ['y'])
-- 
2.43.0


From 43ad558bfac1d3c8d05d1265b65413fa2cdb36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 50/60] fix: variables are restored when an external function
 is interrupted

---
 .../features/structure/externalfunctions.py   | 19 ++++++++-----------
 .../features/structure/inlinefunctions.py     |  8 ++++----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c0c3338..c943fde 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -108,21 +108,18 @@ class ExternalFunctionsPointerHandler:
     def do_function(func_content, calculator, vals, units, refs, flags):
         # Back up the calculator state, then clear it
         backup_vars = calculator.vars
-        calculator.vars = {}
+        try:
+            calculator.vars = {}
 
-        # For each input, set it in the calculator state as a variable called "PARAM" + n
-        for i in range(0, len(vals)):
-            calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
+            # For each input, set it in the calculator state as a variable called "PARAM" + n
+            for i in range(0, len(vals)):
+                calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
 
-        # Execute the function content
-        try:
+            # Execute the function content
             result = calculator.calculate(func_content)
-        except Exception as err:
+        finally:
+            # Restore calculator state, even if the calculation was interrupted
             calculator.vars = backup_vars
-            raise err
-
-        # Restore calculator state
-        calculator.vars = backup_vars
 
         # The last result of the function is the return value
         last_result = get_last_result(result.results)
diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index a3a4691..a88e33d 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -146,11 +146,11 @@ class InlineFunctionsPointerHandler:
         flags = flags.copy()
         flags['stateless'] = False
 
-        # For each input, set it in the calculator state as a variable called "PARAM" + n
-        for i in range(0, len(vals)):
-            calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
-
         try:
+            # For each input, set it in the calculator state as a variable called "PARAM" + n
+            for i in range(0, len(vals)):
+                calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
+
             statements = [[]]
             for item in ref.items:
                 if item.desc() == 'terminator':
-- 
2.43.0


From 55342f48ba127415bddda78f7c91ca1ff05b0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 51/60] fix: variables can be named after a unit or constant
 with digits or an underscore

---
 modularcalculator/features/state/constants.py | 2 +-
 modularcalculator/features/units/units.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index f9e2061..6ce75ab 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -30,7 +30,7 @@ class ConstantsFeature(Feature):
 
         calculator.constants = {}
 
-    constant_regex = re.compile(r'([a-zA-Z]+)')
+    constant_regex = re.compile(r'([a-zA-Z]+)(?![a-zA-Z0-9_])')
 
     def parse_constant(self, expr, i, items, flags):
         next = expr[i:]
diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 45e2c7e..dbd53f6 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -108,7 +108,7 @@ class UnitsFeature(Feature):
         return None, None, None
 
     def unit_char(self, char):
-        return char.isalpha() or char == '_'
+        return char.isalnum() or char == '_'
 
     def op_unit_conversion(self, vals, units, refs, flags):
         if isinstance(vals[0], UnitPowerList):
-- 
2.43.0


From e39ec5c53c7a426566b147bec32c164da1e8f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 52/60] fix: variables can be named after a number
 representation with digits or an underscore

---
 modularcalculator/features/numerical/numericalrepresentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/numericalrepresentation.py b/modularcalculator/features/numerical/numericalrepresentation.py
index 9599625..2d3bf10 100644
--- a/modularcalculator/features/numerical/numericalrepresentation.py
+++ b/modularcalculator/features/numerical/numericalrepresentation.py
@@ -41,7 +41,7 @@ class NumericalRepresentationFeature(Feature):
         next = expr[i:]
 
         for numrep in self.number_types.keys():
-            if next.startswith(numrep) and (len(next) == len(numrep) or not next[len(numrep)].isalpha()):
+            if next.startswith(numrep) and (len(next) == len(numrep) or not (next[len(numrep)].isalnum() or next[len(numrep)] == '_')):
                 return [NumericalRepresentationItem(numrep)], len(numrep), None
 
         return None, None, None
-- 
2.43.0


From f437812eeed21b803f5699860bbb5b505cb7f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 53/60] fix: variables can be named after a unit system with
 digits or an underscore

---
 modularcalculator/features/units/systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/units/systems.py b/modularcalculator/features/units/systems.py
index 354e8e0..dcd945d 100755
--- a/modularcalculator/features/units/systems.py
+++ b/modularcalculator/features/units/systems.py
@@ -41,7 +41,7 @@ class UnitSystemsFeature(Feature):
         next = expr[i:]
 
         for system in self.unit_normaliser.systems.keys():
-            if next.startswith(system) and (len(next) == len(system) or not next[len(system)].isalpha()):
+            if next.startswith(system) and (len(next) == len(system) or not (next[len(system)].isalnum() or next[len(system)] == '_')):
                 return [UnitSystemItem(system)], len(system), None
 
         return None, None, None
-- 
2.43.0


From c04279a93d032dc7f20b6a62634562266580b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 54/60] fix: an array is not a string: join() of nested arrays
 printed memory addresses

---
 modularcalculator/features/strings/strings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index b072afc..36938dd 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -94,6 +94,9 @@ class StringsFeature(Feature):
         if value is None:
             # A variable that doesn't exist
             return False
+        if isinstance(value, list):
+            # An array has no string form (it holds its elements as operand results)
+            return False
         try:
             if isinstance(value, Number):
                 value.to_string(self)
-- 
2.43.0


From 4dfdddff2bbb080b6bf2cdea40392569a15b00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 55/60] fix: converting to a unit held in a variable changed
 that variable

---
 modularcalculator/features/units/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index dbd53f6..f3d356f 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -125,6 +125,8 @@ class UnitsFeature(Feature):
             raise CalculatorException("Second operand is not a unit")
 
         num, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
+        # The unit could also be held in a variable, which must not change
+        tounit = tounit.copy()
         tounit.no_simplify = True
 
         res = OperationResult(num)
-- 
2.43.0


From 99ef03579fc634b12f7174b9fe8cdae6fcbacd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 56/60] fix: extending the parsers, operators or presets of a
 calculator changed all others

---
 modularcalculator/modularcalculator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 4fb98fd..6b90649 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -22,9 +22,10 @@ class ModularCalculator(NumericalEngine):
         self.feature_list = {}
         self.scan_feature_files()
 
-        self.preset_list = modularcalculator.features.presets.presets
-        self.parser_map = modularcalculator.features.layout.parser_map
-        self.op_map = modularcalculator.features.layout.op_map
+        # Custom features can change these, which must not affect other calculators
+        self.preset_list = {name: features.copy() for name, features in modularcalculator.features.presets.presets.items()}
+        self.parser_map = modularcalculator.features.layout.parser_map.copy()
+        self.op_map = [prec.copy() for prec in modularcalculator.features.layout.op_map]
 
         self.installed_features = set()
         self.features_to_install = set()
-- 
2.43.0


From 0cb65902512b86210492e834d242314ab2421032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 57/60] fix: scientific() takes its number of places in any
 representation

---
 modularcalculator/features/numerical/expnumbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 9263ba6..487858c 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -89,7 +89,7 @@ class ExpNumbersFeature(Feature):
         if places is None:
             places = '.' + str(self.number_prec)
         else:
-            places = '.' + str(places.to_string())
+            places = '.' + '{:f}'.format(places.to_decimal())
         scientificformat = '{0:' + places + 'E}'
 
         formattednumber = scientificformat.format(num.to_decimal())
-- 
2.43.0


From 951bf8394f77822e6b26a26f5b2852d6a18d936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 58/60] fix: import_feature_file loads the file it is given,
 not another of the same name

---
 modularcalculator/modularcalculator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 6b90649..1c47229 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -12,6 +12,7 @@ import inspect
 import pkgutil
 import os.path
 from importlib import import_module
+from importlib.util import module_from_spec, spec_from_file_location
 
 
 class ModularCalculator(NumericalEngine):
@@ -43,11 +44,14 @@ class ModularCalculator(NumericalEngine):
                     self.import_feature(module_name, package_name)
 
     def import_feature(self, module_name, package_name=None):
-        ids = []
         if package_name is not None:
             imported_module = import_module("{}.{}".format(package_name, module_name))
         else:
             imported_module = import_module(module_name)
+        return self.import_feature_module(imported_module)
+
+    def import_feature_module(self, imported_module):
+        ids = []
         for i in dir(imported_module):
             feature = getattr(imported_module, i)
             if inspect.isclass(feature) and issubclass(feature, Feature):
@@ -65,7 +69,13 @@ class ModularCalculator(NumericalEngine):
         feature_module = os.path.splitext(feature_module)[0]
         if feature_dir not in sys.path:
             sys.path.append(feature_dir)
-        return self.import_feature(feature_module)
+        # Load this exact file, another file or module with the same name could already have been imported
+        spec = spec_from_file_location(feature_module, file_path)
+        if spec is None:
+            raise ImportError("Not a Python file: {}".format(file_path))
+        imported_module = module_from_spec(spec)
+        spec.loader.exec_module(imported_module)
+        return self.import_feature_module(imported_module)
 
     def list_presets(self):
         return self.preset_list.keys()
-- 
2.43.0


From 7550e7f02a8fa27863ff46b1ea1437b80c225212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 59/60] fix: comments can start with a symbol of several
 characters

---
 modularcalculator/features/nonfunctional/comments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/nonfunctional/comments.py b/modularcalculator/features/nonfunctional/comments.py
index ca63cef..fb40269 100755
--- a/modularcalculator/features/nonfunctional/comments.py
+++ b/modularcalculator/features/nonfunctional/comments.py
@@ -34,7 +34,7 @@ class CommentsFeature(Feature):
 
     def parse_comment(self, expr, i, items, flags):
         next = expr[i:]
-        if next[0] == self.feature_options['nonfunctional.comments']['Symbol']:
+        if next.startswith(self.feature_options['nonfunctional.comments']['Symbol']):
             i = next.find("\n")
             if i == -1:
                 i = len(next)
-- 
2.43.0


From 7458202e79d59f6d3bc7880a84f6b4330555a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 60/60] fix: option symbols are taken literally, whatever
 characters they have

---
 modularcalculator/features/numerical/expnumbers.py        | 2 +-
 modularcalculator/features/structure/externalfunctions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 487858c..ba32d2d 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -107,7 +107,7 @@ class ExpNumbersFeature(Feature):
 
     def compile_regex(self):
         if not hasattr(self, 'ExpNumbersFeature_numexp_regex') or not hasattr(self, 'ExpNumbersFeature_numexp_regex_symbol') or self.ExpNumbersFeature_numexp_regex_symbol != self.feature_options['numerical.expnumbers']['Symbol']:
-            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\-?\d+(\.\d+)?' + self.feature_options['numerical.expnumbers']['Symbol'] + r'\-?\d+)', re.IGNORECASE)
+            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\-?\d+(\.\d+)?' + re.escape(self.feature_options['numerical.expnumbers']['Symbol']) + r'\-?\d+)', re.IGNORECASE)
             self.ExpNumbersFeature_numexp_regex_symbol = self.feature_options['numerical.expnumbers']['Symbol']
         return self.ExpNumbersFeature_numexp_regex
 
diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c943fde..40d0e37 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -66,7 +66,7 @@ class ExternalFunctionsPointerHandler:
 
         # If function content has a top line declaring the input type, parse it
         topline = func_content.split('\n', 1)[0]
-        input_line_regex = re.compile(r'^' + calculator.feature_options['nonfunctional.comments']['Symbol'] + r'INPUT((\s+\S+)+)')
+        input_line_regex = re.compile(r'^' + re.escape(calculator.feature_options['nonfunctional.comments']['Symbol']) + r'INPUT((\s+\S+)+)')
         input_line_regex_match = input_line_regex.match(topline)
         if input_line_regex_match:
             i = 0
-- 
2.43.0

