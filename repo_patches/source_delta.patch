From a5128cc625e3b6802e644a675f9134b7a8e38aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 01/51] fix: a Scalar of zeros followed by a newline is not a
 form of zero

---
 ptypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..fa4ec9b 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -9,7 +9,7 @@ import types
 import tokens
 import parsing
 
-zeroRgx = re.compile(r"^(0+(\.0*)?|0*\.0+)$")
+zeroRgx = re.compile(r"(0+(\.0*)?|0*\.0+)\Z")
 exp = r"(?:e[+-]\d+)"
 pyFloatRgx = re.compile(rf"-?(\d+\.\d*{exp}?|\d+{exp}|\.\d+{exp}?)")
 pipFloatRgx = re.compile(r"-?\d+\.\d+")
-- 
2.43.0


From 700d8113c2cf06aae60ce5434c5ac64489b5c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 02/51] fix: quote non-canonical negative numbers in repr so
 that they round-trip

---
 ptypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index fa4ec9b..495aab4 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -55,9 +55,13 @@ class Scalar(PipIterable):
 
     def __repr__(self):
         m = pipFloatRgx.match(self._value) or intRgx.match(self._value)
-        if m and m.end() == len(self._value):
+        if (m and m.end() == len(self._value)
+                and not (self._value.startswith("-")
+                         and str(Scalar(self.toNumber())) != self._value)):
             # Scalars that match the format of Pip numeric literals
-            # can be displayed without quotes
+            # can be displayed without quotes (but a negative one is the
+            # NEG operator applied to a literal, so it has to be the exact
+            # result of that operation)
             return self._value
         else:
             # Other Scalars, even those that can evaluate to a number,
-- 
2.43.0


From b6f2ec79c096e085cd1c5f424318c184882f3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 03/51] fix: join a finite Range inside a List like a List
 under -l and -S

---
 ptypes.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index 495aab4..78ec0b3 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -360,7 +360,8 @@ class List(PipIterable):
         elif self.outFormat == "l":
             # Each item in the list is a line, which in turn is joined on
             # empty string
-            return "\n".join(i.joined("") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined("") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
         elif self.outFormat == "P":
             # Each item in the list is a line, which in turn is repr'd
@@ -368,12 +369,13 @@ class List(PipIterable):
         elif self.outFormat == "S":
             # Each item in the list is a line, which in turn is joined on
             # space
-            return "\n".join(i.joined(" ") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined(" ") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
 
     def joined(self, separator):
         return separator.join(i.joined(separator)
-                              if isinstance(i, List)
+                              if isinstance(i, (List, Range))
                               else str(i)
                               for i in self._value)
 
@@ -535,6 +537,13 @@ class Range(PipIterable):
             # Infinite Ranges have to use the repr
             return repr(self)
 
+    def joined(self, separator):
+        if self.isFinite():
+            # Treat finite Ranges like Lists
+            return List(self).joined(separator)
+        else:
+            return repr(self)
+
     def __repr__(self):
         lower = self._lower if self._lower is not None else "()"
         upper = self._upper if self._upper is not None else "()"
-- 
2.43.0


From f3057847251d0a7dcb77fa91866abea6ffa29bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 04/51] fix: a doubled backslash in an escaped string doesn't
 start an interpolation

---
 parsing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parsing.py b/parsing.py
index ab910da..2bb7cde 100644
--- a/parsing.py
+++ b/parsing.py
@@ -213,7 +213,15 @@ def parseOperand(tokenList):
         # Strip off \" delimiters
         rawText = token[2:-2]
         # Parse any interpolation sequences (for now, just names)
-        litOrInterpolation = re.split(r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # A doubled backslash is a literal backslash, not the beginning of an
+        # interpolation sequence
+        litOrInterpolation = re.split(r"(?<!\\)((?:\\\\)*)"
+                                      r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # Move each group of doubled backslashes back into the literal
+        i = 1
+        while i < len(litOrInterpolation):
+            litOrInterpolation[i-1] += litOrInterpolation.pop(i)
+            i += 2
         if len(litOrInterpolation) == 1:
             # No interpolations--return the token unchanged
             return token
-- 
2.43.0


From 7a64def624225b1ef94d513a902c5e835d140e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 05/51] fix: don't strip semicolon and space character literals
 when unparsing

---
 parsing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsing.py b/parsing.py
index 2bb7cde..834159b 100644
--- a/parsing.py
+++ b/parsing.py
@@ -334,6 +334,7 @@ def parseOperand(tokenList):
 def unparse(tree, statementSep=""):
     "Convert parse tree back to string of code."
     code = ""
+    separator = "; " + statementSep
     for statement in tree:
         if isinstance(statement, list):
             # A parse tree
@@ -353,9 +354,10 @@ def unparse(tree, statementSep=""):
         else:
             # Not a parse tree, probably a literal or name
             code += unparseExpr(statement, statementSep)
-        code += "; "
-        code += statementSep
-    return code.strip("; " + statementSep)
+        code += separator
+    # Remove the separator after the last statement (and nothing else: the
+    # last statement could end in one of these characters, like ' or ';)
+    return code.removesuffix(separator)
 
 def unparseExpr(tree, statementSep):
     "Convert parse tree of expression back to string of code."
-- 
2.43.0


From d6a783d1eaa1407b5ded9e62efa4d09e901ba95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 06/51] fix: Blocks that differ only in their meta-operators
 are not equal

---
 operators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/operators.py b/operators.py
index b739261..a8277e5 100644
--- a/operators.py
+++ b/operators.py
@@ -59,6 +59,15 @@ class Operator(tokens.Token):
         return (f"Operator({self},{self.function},{self.arity},"
                 f"{self.precedence},{self.associativity})")
 
+    def __eq__(self, rhs):
+        if isinstance(rhs, Operator):
+            # Operators with different meta-operators applied are different
+            return str(self) == str(rhs)
+        else:
+            return super().__eq__(rhs)
+
+    __hash__ = tokens.Token.__hash__
+
     def copy(self):
         cpy = Operator(self._text,
                        self.function,
-- 
2.43.0


From ab206a1498e38d281494f6279817853108054424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 07/51] fix: parenthesize negative numbers and Patterns with
 flags when unparsing a lambda

---
 parsing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parsing.py b/parsing.py
index 834159b..1617524 100644
--- a/parsing.py
+++ b/parsing.py
@@ -381,9 +381,15 @@ def unparseExpr(tree, statementSep):
                     operands.append(str(item))
                 else:
                     operand = unparseExpr(item, statementSep)
-                    if (isinstance(item, list)
-                            and item[0] not in ["PAREN", "BLOCK",
-                                                "SEND", "LIST"]):
+                    if isinstance(item, list):
+                        needsParens = item[0] not in ["PAREN", "BLOCK",
+                                                      "SEND", "LIST"]
+                    else:
+                        # A Pip value whose repr begins with an operator
+                        # (a negative number or a Pattern with flags)
+                        needsParens = (not isinstance(item, tokens.Token)
+                                       and operand[0] in "-A,.")
+                    if needsParens:
                         operand = "(" + operand + ")"
                     operands.append(operand)
             if op == "CHAIN":
-- 
2.43.0


From 23a90eab475e6d211ecff833844489d31ec9c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 08/51] fix: numeric (in)equality of Ranges treats an
 unspecified lower bound as 0

---
 execution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index d1c0b2b..5ff9d21 100644
--- a/execution.py
+++ b/execution.py
@@ -2475,8 +2475,9 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             result = lhs.toNumber() == rhs.toNumber()
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-            # Just use the Range class's __eq__
-            result = lhs == rhs
+            # An unspecified lower bound is equivalent to 0
+            result = ((lhs.getLower() or 0) == (rhs.getLower() or 0)
+                      and lhs.getUpper() == rhs.getUpper())
         elif (isinstance(lhs, (List, Range))
               and isinstance(rhs, (List, Range))):
             try:
@@ -2716,7 +2717,8 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             result = lhs.toNumber() != rhs.toNumber()
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-            result = lhs != rhs
+            result = ((lhs.getLower() or 0) != (rhs.getLower() or 0)
+                      or lhs.getUpper() != rhs.getUpper())
         elif (isinstance(lhs, (List, Range))
               and isinstance(rhs, (List, Range))):
             try:
-- 
2.43.0


From 8d79ed57368fa18f8fdc892a1ee1a6dc1d2ddd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 09/51] fix: NE compares Patterns the same way that Q does

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 5ff9d21..1f0ee45 100644
--- a/execution.py
+++ b/execution.py
@@ -3842,7 +3842,8 @@ class ProgramState:
             return nil
 
     def STRNOTEQUAL(self, lhs, rhs):
-        if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
+        if (isinstance(lhs, (Scalar, Pattern))
+                and isinstance(rhs, (Scalar, Pattern))):
             result = str(lhs) != str(rhs)
         elif isinstance(lhs, List) and isinstance(rhs, List):
             result = (len(lhs) != len(rhs)
-- 
2.43.0


From 759be35e0a8a2255a2ecf72d58657bbee600f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 10/51] fix: close a function's local scope even if it
 terminates with an error

---
 execution.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index 1f0ee45..1a95701 100644
--- a/execution.py
+++ b/execution.py
@@ -403,18 +403,22 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            # Even if the function aborted with an error (the REPL continues
+            # after errors), its scope must not outlive it
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From 80faff7720d9d6342961471f04598d3e077f0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 11/51] fix: report Python exceptions during execution as fatal
 errors, not tracebacks

---
 pip.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pip.py b/pip.py
index 80b5c11..f6aa44c 100644
--- a/pip.py
+++ b/pip.py
@@ -295,9 +295,10 @@ def pip(code=None, argv=None, interactive=True):
             parsed_arg = arg_parse_tree[0]
             try:
                 program_args.append(state.evaluate(parsed_arg))
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Besides FatalErrors, this could be a RuntimeError (probably
+                # means we exceeded Python's max recursion depth) or an
+                # error from a Python function such as chr()
                 print(f"Fatal error while evaluating argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
@@ -314,9 +315,10 @@ def pip(code=None, argv=None, interactive=True):
         print("Executing...")
     try:
         state.executeProgram(parse_tree, program_args)
-    except (FatalError, RuntimeError) as err:
-        # RuntimeError probably means we exceeded Python's max
-        # recursion depth
+    except Exception as err:
+        # Besides FatalErrors, this could be a RuntimeError (probably
+        # means we exceeded Python's max recursion depth) or an
+        # error from a Python function such as chr()
         print("Fatal error during execution:", err, file=sys.stderr)
         print("Program terminated.", file=sys.stderr)
         raise FatalError(str(err))
@@ -384,9 +386,10 @@ def repl(list_format=None, warnings=False):
                     if result is not None:
                         state.PRINT(state.REPR(result))
                         state.updateHistoryVars(result)
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Besides FatalErrors, this could be a RuntimeError (probably
+                # means we exceeded Python's max recursion depth) or an
+                # error from a Python function such as chr()
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-- 
2.43.0


From 0e6cfd03346ce361a3501237ad167a6da292443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 12/51] fix: don't limit integers to 4300 digits

---
 pip.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pip.py b/pip.py
index f6aa44c..cb111db 100644
--- a/pip.py
+++ b/pip.py
@@ -4,6 +4,11 @@ import sys
 import argparse
 import pprint
 
+# Pip numbers are strings of digits, so Python's limit on converting between
+# integers and strings (if it exists) would limit the size of Pip numbers
+if hasattr(sys, "set_int_max_str_digits"):
+    sys.set_int_max_str_digits(0)
+
 import version
 from scanning import scan, addSpaces
 from parsing import parse
-- 
2.43.0


From 1c27c9c99855d470ba097c448135370e2e34b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 13/51] fix: variables, arguments and constants never share
 mutable values

---
 execution.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 1a95701..4c2d0e6 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,10 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            # Store a copy because the value could be shared with a constant
+            # or another variable, which subsequent modifications of this
+            # variable must not affect
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +391,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
@@ -620,7 +623,7 @@ class ProgramState:
             }
         self.vars["\\g"] = List(self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg
+            self.vars["\\" + name] = arg.copy()
         if self.mainFunction is not None:
             self.vars["\\f"] = self.mainFunction
         else:
@@ -4391,7 +4394,7 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
             self.vars["g"] = List(argList)
 
-- 
2.43.0


From 78aa12d2ef6ffc580e31b0f16fdde89c39611a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 14/51] fix: assigning to an invalid index is a warning, not a
 fatal error

---
 execution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index 4c2d0e6..f2266bb 100644
--- a/execution.py
+++ b/execution.py
@@ -378,8 +378,9 @@ class ProgramState:
             for index in lval.sliceList[:-1]:
                 try:
                     currentVal = currentVal[index]
-                except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                except (IndexError, TypeError):
+                    self.err.warn(f"Invalid index into {currentVal!r}:",
+                                  index)
                     return
                 
             # Final level--do the assignment
@@ -392,7 +393,7 @@ class ProgramState:
             index = lval.sliceList[-1]
             try:
                 currentVal[index] = rval.copy()
-            except (IndexError, ZeroDivisionError):
+            except (IndexError, ZeroDivisionError, TypeError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
         else:
-- 
2.43.0


From c060f6143f9a5bcbaa80fbe207cd9b64884d343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 15/51] fix: MM and ZD with unsupported argument types warn
 instead of crashing

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index f2266bb..ed6a741 100644
--- a/execution.py
+++ b/execution.py
@@ -2262,7 +2262,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4319,7 +4319,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 89cc17cc6c266e5359d0b99d09aabcb6d67097bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 16/51] fix: inclusive range with an unsupported upper bound is
 nil, not a fatal error

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index ed6a741..7e28ec3 100644
--- a/execution.py
+++ b/execution.py
@@ -1901,7 +1901,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From 02c1a2889089b86db369c389bce49e79322b5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 17/51] fix: apply the index/slice of an lvalue that is a List
 of lvalues

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 7e28ec3..c6fd93c 100644
--- a/execution.py
+++ b/execution.py
@@ -265,7 +265,7 @@ class ProgramState:
                     pass
             if isinstance(base, List):
                 # This is a List of lvals
-                return List(self.getRval(item) for item in base)
+                result = List(self.getRval(item) for item in base)
             elif base in self.specialVars:
                 # This is a special variable
                 if expr.evaluated is not None:
-- 
2.43.0


From c57eafee57d573ff1581b31a18b70e6f3d65185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 18/51] fix: nothing is IN a Pattern, so everything is NI a
 Pattern

---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index c6fd93c..c93d664 100644
--- a/execution.py
+++ b/execution.py
@@ -2465,8 +2465,11 @@ class ProgramState:
         elif isinstance(needle, Pattern) and isinstance(haystack, Scalar):
             matchExists = needle.asRegex().search(str(haystack))
             return Scalar(not matchExists)
-        else:
+        elif isinstance(haystack, PipIterable):
             return Scalar(needle not in haystack)
+        else:
+            # If it's not one of those types, nothing is in it (see IN)
+            return SCALAR_ONE
 
     def NUMCMP(self, lhs, rhs):
         # Equivalent to Python2's cmp() function: return -1 if lhs < rhs,
-- 
2.43.0


From d173b899f1b40fbf6225254648d3a2d95c7c00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 19/51] fix: adding a number to an infinite Range gives an
 infinite Range

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index c93d664..fbcda9f 100644
--- a/execution.py
+++ b/execution.py
@@ -788,6 +788,8 @@ class ProgramState:
                 lower += int(lhs)
                 if upper is not None:
                     upper += int(lhs)
+                else:
+                    upper = nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3874,6 +3876,8 @@ class ProgramState:
             lower -= int(rhs)
             if upper is not None:
                 upper -= int(rhs)
+            else:
+                upper = nil
             return Range(lower, upper)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
-- 
2.43.0


From 974429f2add3942544a576ec2fb64cd735dffffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 20/51] fix: don't truncate when subtracting a non-integer from
 a Range

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index fbcda9f..aea7a64 100644
--- a/execution.py
+++ b/execution.py
@@ -3871,6 +3871,8 @@ class ProgramState:
             result = lhs.toNumber() - rhs.toNumber()
             return Scalar(result)
         elif isinstance(lhs, Range) and isinstance(rhs, Scalar):
+            if rhs.toNumber() != int(rhs):
+                return List(self.SUB(item, rhs) for item in lhs)
             lower = lhs.getLower() or 0
             upper = lhs.getUpper()
             lower -= int(rhs)
-- 
2.43.0


From 635ddafe215cc58afd7af33c430dbf888803a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 21/51] fix: rounding operators don't lose precision on big
 integers

---
 execution.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index aea7a64..14bebe9 100644
--- a/execution.py
+++ b/execution.py
@@ -1,4 +1,5 @@
 
+from fractions import Fraction
 import itertools
 import math
 import random
@@ -21,6 +22,14 @@ SCALAR_ONE = Scalar("1")
 SCALAR_TWO = Scalar("2")
 
 
+def divide(lhs, rhs):
+    """Divide two numbers without losing precision if both are ints."""
+    if isinstance(lhs, int) and isinstance(rhs, int):
+        return Fraction(lhs, rhs)
+    else:
+        return lhs / rhs
+
+
 class ProgramState:
     """The internal state of a program during execution."""
     
@@ -1061,7 +1070,8 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.ceil(lhs / precision) * precision)
+                return Scalar(math.ceil(divide(lhs, precision))
+                              * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for CEIL:",
@@ -1710,7 +1720,8 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.floor(lhs / precision) * precision)
+                return Scalar(math.floor(divide(lhs, precision))
+                              * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for FLOOR:",
@@ -1828,7 +1839,7 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            return Scalar(math.floor(divide(rhs.toNumber(), 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1837,7 +1848,7 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            return Scalar(math.ceil(divide(rhs.toNumber(), 2)))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
@@ -3395,12 +3406,16 @@ class ProgramState:
                 return lhs
             elif precision == 1:
                 lhs = lhs.toNumber()
-                if math.remainder(lhs, 1) > 0:
+                if isinstance(lhs, int):
+                    return Scalar(lhs)
+                elif math.remainder(lhs, 1) > 0:
                     return Scalar(math.floor(lhs))
                 else:
                     return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    return Scalar(round(divide(lhs, precision)) * precision)
                 return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
@@ -3427,7 +3442,8 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
-                return Scalar(math.trunc(lhs / precision) * precision)
+                return Scalar(math.trunc(divide(lhs, precision))
+                              * precision)
         else:
             if rhs is None:
                 self.err.warn("Unimplemented argtype for ROUNDZERO:",
-- 
2.43.0


From f0c8f656e7a63beda4bcaf26ad112589d1cfaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 22/51] fix: RA works on Ranges instead of terminating the
 program

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 14bebe9..1efc1d1 100644
--- a/execution.py
+++ b/execution.py
@@ -3271,7 +3271,11 @@ class ProgramState:
     def REPLACEAT(self, lhs, index, new):
         if (isinstance(lhs, PipIterable)
                 and isinstance(index, PipIterable)):
-            result = lhs.copy()
+            if isinstance(lhs, Range):
+                # Can't modify a Range in place... convert it to a List first
+                result = List(lhs)
+            else:
+                result = lhs.copy()
             if isinstance(index, List):
                 if isinstance(new, List):
                     # Both are lists--replace at corresponding indices
-- 
2.43.0


From 10286d1d02b54025e424551e1f5b792b358d25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 23/51] fix: unary WV doesn't modify its argument

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index 1efc1d1..7365375 100644
--- a/execution.py
+++ b/execution.py
@@ -4228,6 +4228,8 @@ class ProgramState:
             elif isinstance(iterables, (List, Range)):
                 result = []
                 allScalar = True
+                # Make a (shallow) copy so as not to change the argument
+                iterables = list(iterables)
                 for i, iterable in enumerate(iterables):
                     if isinstance(iterable, (List, Range)):
                         allScalar = False
-- 
2.43.0


From dccdeebbd7dbcd649c4dcca2ff4afc0f94fd5f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 24/51] fix: stripping by a Pattern respects its flags and
 alternations

---
 execution.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 7365375..8f41bfe 100644
--- a/execution.py
+++ b/execution.py
@@ -2163,7 +2163,8 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})",
+                                       extra.asRegex().flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3482,7 +3483,8 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z",
+                                 extra.asRegex().flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3806,12 +3808,14 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})",
+                                       extra.asRegex().flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z",
+                                 extra.asRegex().flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
-- 
2.43.0


From ea1b30dec2ea1d57a21be5e2812ad3cde6324367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 25/51] fix: unary WV of an empty List or a non-iterable is not
 a fatal error

---
 execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 8f41bfe..750378e 100644
--- a/execution.py
+++ b/execution.py
@@ -4246,7 +4246,7 @@ class ProgramState:
                         self.err.warn("Cannot weave object of type",
                                       type(iterable))
                         return nil
-                for i in range(max(map(len, iterables))):
+                for i in range(max(map(len, iterables), default=0)):
                     for iterable in iterables:
                         if i < len(iterable):
                             result.append(iterable[i])
@@ -4254,6 +4254,11 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                if iterables is not nil:
+                    self.err.warn("Unimplemented argtype for WEAVE:",
+                                  type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From bfe24bca84ad93cc52cb40fb83f55c1cdd84e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 26/51] fix: trimming more characters than a string has leaves
 nothing

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 750378e..b1e5cd6 100644
--- a/execution.py
+++ b/execution.py
@@ -4136,7 +4136,7 @@ class ProgramState:
             front = max(front, 0)
             back = max(back, 0)
             string = str(string)
-            return Scalar(string[front:len(string)-back])
+            return Scalar(string[front:max(len(string)-back, 0)])
         else:
             self.err.warn("Unimplemented argtype for lhs of TRIM:",
                           type(string))
-- 
2.43.0


From 3265e29cc228d8bf0d9f9fab5d6e50dab09d83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 27/51] fix: a slice of an empty iterable is empty, also if
 it's not in a variable

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index b1e5cd6..dcaef8a 100644
--- a/execution.py
+++ b/execution.py
@@ -938,7 +938,7 @@ class ProgramState:
             return List(self.AT(lhs, item) for item in rhs)
         elif isinstance(lhs, PipIterable):
             try:
-                if len(lhs) == 0:
+                if isinstance(index, int) and len(lhs) == 0:
                     self.err.warn("Indexing into empty iterable")
                     return nil
             except ValueError:
-- 
2.43.0


From 1f3ca075b4e303f70c22698528f82a32791d7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 28/51] fix: CH with rounding errors doesn't return an extra
 chunk

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index dcaef8a..36b1a04 100644
--- a/execution.py
+++ b/execution.py
@@ -1112,7 +1112,7 @@ class ProgramState:
             chunks = rhs.toNumber()
             if chunks > 0:
                 index = 0
-                jump = len(iterable) / chunks
+                jump = len(iterable) / Fraction(chunks)
                 while index < len(iterable):
                     endIndex = min(index + jump, len(iterable))
                     chunk = iterable[math.floor(index):math.floor(endIndex)]
@@ -1122,7 +1122,7 @@ class ProgramState:
             elif chunks < 0:
                 # With a negative chunk number, chop from right to left
                 index = len(iterable)
-                jump = len(iterable) / chunks
+                jump = len(iterable) / Fraction(chunks)
                 while index > 0:
                     startIndex = max(index + jump, 0)
                     chunk = iterable[math.ceil(startIndex):math.ceil(index)]
-- 
2.43.0


From ea77f1bc71efcdea45aa7e272174088e7e27e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 29/51] fix: splitting by a Pattern gives nil for groups that
 didn't match

---
 execution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 36b1a04..6d22caf 100644
--- a/execution.py
+++ b/execution.py
@@ -3659,7 +3659,9 @@ class ProgramState:
                     result = (Scalar(char) for char in str(string))
                 else:
                     sep = sep.asSeparator()
-                    result = (Scalar(substr)
+                    # If the Pattern has capture groups, the result contains
+                    # their values (None if they didn't participate)
+                    result = (ptypes.toPipType(substr)
                               for substr in sep.split(str(string)))
             else:
                 result = (Scalar(substr) for substr in str(string).split(sep))
-- 
2.43.0


From e1618642185398812a50272d42d1c73d617f9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 30/51] fix: multiplying a Pattern by a number preserves the
 Pattern's flags

---
 execution.py | 8 ++++----
 ptypes.py    | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 6d22caf..abc9822 100644
--- a/execution.py
+++ b/execution.py
@@ -3871,10 +3871,10 @@ class ProgramState:
         return Scalar(result)
 
     def STRMUL(self, lhs, rhs):
-        if isinstance(lhs, (Scalar, Pattern)) and isinstance(rhs, Scalar):
-            string = str(lhs)
-            num = int(rhs)
-            return type(lhs)(string*num)
+        if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
+            return Scalar(str(lhs) * int(rhs))
+        elif isinstance(lhs, Pattern) and isinstance(rhs, Scalar):
+            return lhs.multiply(int(rhs))
         else:
             self.err.warn("Unimplemented argtypes for STRMUL:",
                           type(lhs), "and", type(rhs))
diff --git a/ptypes.py b/ptypes.py
index 78ec0b3..0324016 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -251,6 +251,9 @@ class Pattern(PipType):
         else:
             raise TypeError(f"Cannot repeat Pattern by {type(count)}")
 
+    def multiply(self, count):
+        return Pattern(self._raw * count, self._flags)
+
     def concat(self, other):
         return Pattern(f"{self._raw}{other._raw}",
                        self._flags | other._flags)
-- 
2.43.0


From 912618b0a1c87b11ba4c27332097d42ceb40acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 31/51] fix: the * meta-operator evaluates each result to a
 value

---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index abc9822..1a76630 100644
--- a/execution.py
+++ b/execution.py
@@ -702,7 +702,10 @@ class ProgramState:
             newReturnExpr = [operator, returnExpr]
             return Block(statements, newReturnExpr)
         elif isinstance(iterable, PipIterable):
-            return List(self.evaluate([normalOp, item]) for item in iterable)
+            # The operator could return an Lval (e.g. the U operator applied to
+            # a variable)
+            return List(self.getRval(self.evaluate([normalOp, item]))
+                        for item in iterable)
         elif iterable is nil:
             return nil
         else:
-- 
2.43.0


From 091a32a840b5fa7d408a9c00581e8b6a7ac2beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 32/51] fix: end of input exits the REPL instead of crashing it

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index cb111db..8e13ab8 100644
--- a/pip.py
+++ b/pip.py
@@ -398,7 +398,7 @@ def repl(list_format=None, warnings=False):
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (EOFError, KeyboardInterrupt):
         pass
     print("Bye!")
 
-- 
2.43.0


From 72c006ca2fe916fc1533d712686f91eae65cbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 33/51] fix: an empty argument with -x is nil instead of
 crashing

---
 pip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pip.py b/pip.py
index 8e13ab8..e7580e3 100644
--- a/pip.py
+++ b/pip.py
@@ -12,7 +12,7 @@ if hasattr(sys, "set_int_max_str_digits"):
 import version
 from scanning import scan, addSpaces
 from parsing import parse
-from ptypes import Scalar
+from ptypes import Scalar, nil
 from execution import ProgramState
 from errors import FatalError, BadSyntax, IncompleteSyntax
 
@@ -297,7 +297,8 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise
-            parsed_arg = arg_parse_tree[0]
+            # An empty argument evaluates to nil
+            parsed_arg = arg_parse_tree[0] if arg_parse_tree else nil
             try:
                 program_args.append(state.evaluate(parsed_arg))
             except Exception as err:
-- 
2.43.0


From 8356d990ad678b755db5d9fe3802a4f904ac4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 34/51] fix: an argument that is a variable name with -x is
 that variable's value

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index e7580e3..fbe760b 100644
--- a/pip.py
+++ b/pip.py
@@ -300,7 +300,7 @@ def pip(code=None, argv=None, interactive=True):
             # An empty argument evaluates to nil
             parsed_arg = arg_parse_tree[0] if arg_parse_tree else nil
             try:
-                program_args.append(state.evaluate(parsed_arg))
+                program_args.append(state.getRval(parsed_arg))
             except Exception as err:
                 # Besides FatalErrors, this could be a RuntimeError (probably
                 # means we exceeded Python's max recursion depth) or an
-- 
2.43.0


From d306605cebf43895c9eebeec490f3263eb32b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 35/51] fix: repr of a Block without a return expression
 doesn't add one

---
 ptypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index 0324016..49b12b3 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -727,7 +727,11 @@ class Block(PipType):
         return repr(self)
 
     def __repr__(self):
-        statements = self._statements + [self._returnExpr]
+        if self._returnExpr is nil:
+            # The Block ends with a command or is empty: no return expression
+            statements = self._statements
+        else:
+            statements = self._statements + [self._returnExpr]
         return "{" + parsing.unparse(statements) + "}"
 
     def __bool__(self):
-- 
2.43.0


From e67cfcc5c973f3dc4c44c07eee706f24a1820b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 36/51] fix: a slice of a list of lvalues can be indexed and
 assigned to

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 1a76630..1c8467e 100644
--- a/execution.py
+++ b/execution.py
@@ -4402,7 +4402,11 @@ class Lval:
             # original
             self.sliceList = base.sliceList[:]
             if sliceValue is not None:
-                self.sliceList.append(sliceValue)
+                if isinstance(self.base, List):
+                    # A slice of a list of lvalues is a list of lvalues
+                    self.base = self.base[sliceValue]
+                else:
+                    self.sliceList.append(sliceValue)
             self.evaluated = base.evaluated
         else:
             if isinstance(base, List):
-- 
2.43.0


From b11306b2f26b0d8d814e1d4b227816777a40cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 37/51] fix: slicing an empty value gives a new value, not the
 value itself

---
 ptypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index 49b12b3..98b2c61 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -124,7 +124,7 @@ class Scalar(PipIterable):
         elif isinstance(index, slice):
             if self._value == "":
                 # Slicing the empty string gives empty string
-                return self
+                return Scalar("")
             length = len(self._value)
             repString = self._value
             start = index.start if index.start is not None else 0
@@ -420,7 +420,7 @@ class List(PipIterable):
         elif isinstance(index, slice):
             if self._value == []:
                 # Slicing the empty list gives empty list
-                return self
+                return List([])
             length = len(self._value)
             repList = self._value[:]  # Shallow copy so as not to change _value
             start = index.start if index.start is not None else 0
@@ -639,7 +639,7 @@ class Range(PipIterable):
                 start, stop = index.start, index.stop
             if self.isEmpty():
                 # Any slice of an empty Range will be empty
-                return self
+                return self.copy()
             elif self.isFinite():
                 length = len(self)
                 start = start if start is not None else 0
-- 
2.43.0


From 948af3c94e6830a27e64520460b0bf8580e340a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 38/51] fix: cosecant and cotangent of zero give nil instead of
 crashing

---
 execution.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 1c8467e..9bdcdb8 100644
--- a/execution.py
+++ b/execution.py
@@ -1180,7 +1180,11 @@ class ProgramState:
 
     def COSEC(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.sin(rhs.toNumber()))
+            try:
+                return Scalar(1/math.sin(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Cosecant of zero is not defined")
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COSEC:", type(rhs))
             return nil
@@ -1194,7 +1198,11 @@ class ProgramState:
 
     def COTAN(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.tan(rhs.toNumber()))
+            try:
+                return Scalar(1/math.tan(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Cotangent of zero is not defined")
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COTAN:", type(rhs))
             return nil
-- 
2.43.0


From 34fff66a5552969b75b466db1c668008a8f8cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 39/51] fix: C of a number that is not a character code gives
 nil

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 9bdcdb8..cccd4e3 100644
--- a/execution.py
+++ b/execution.py
@@ -1142,7 +1142,11 @@ class ProgramState:
 
     def CHR(self, rhs):
         if isinstance(rhs, Scalar):
-            result = chr(int(rhs))
+            try:
+                result = chr(int(rhs))
+            except (ValueError, OverflowError):
+                self.err.warn("Invalid character code for CHR:", rhs)
+                return nil
             return Scalar(result)
         elif isinstance(rhs, Pattern):
             # Given a Pattern, C wraps the regex in a capturing group
-- 
2.43.0


From 49b7a9af61102656192a50e9154aa722ec3202c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 40/51] fix: CB with a negative number gives nil instead of
 crashing

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index cccd4e3..26c7118 100644
--- a/execution.py
+++ b/execution.py
@@ -1158,7 +1158,11 @@ class ProgramState:
     def COMBINATIONS(self, iterable, num):
         """Return List of all ways to choose num items from iterable."""
         if isinstance(iterable, PipIterable) and isinstance(num, Scalar):
-            result = itertools.combinations(iterable, int(num))
+            num = int(num)
+            if num < 0:
+                self.err.warn("Cannot choose a negative number of items:", num)
+                return nil
+            result = itertools.combinations(iterable, num)
             if isinstance(iterable, Scalar):
                 return List(self.JOIN(comb) for comb in result)
             else:
-- 
2.43.0


From 5738be28c474317d4368e32ef1ea438301c1c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 41/51] fix: V with two functions gives nil instead of crashing

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 26c7118..c23f813 100644
--- a/execution.py
+++ b/execution.py
@@ -1440,7 +1440,8 @@ class ProgramState:
                 self.err.die(f"Parsing error while evaluating {code!r}:",
                              err)
             code = self.BLOCK(tree)
-        if isinstance(code, Block) and argList is not None:
+        if (isinstance(code, Block) and argList is not None
+                and not isinstance(argList, Block)):
             return self.functionCall(code, argList)
         elif isinstance(code, Block) and argList is None:
             # Not a function call--just run the block at current scope
-- 
2.43.0


From 02709b105451122674b3db16fc279fc6e613c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 42/51] fix: RA in an empty value, or with an empty list, no
 longer crashes

---
 execution.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index c23f813..37f2060 100644
--- a/execution.py
+++ b/execution.py
@@ -3298,7 +3298,10 @@ class ProgramState:
             else:
                 result = lhs.copy()
             if isinstance(index, List):
-                if isinstance(new, List):
+                if isinstance(new, List) and len(new) == 0 and index:
+                    self.err.warn("No values to replace with in REPLACEAT")
+                    return result
+                elif isinstance(new, List):
                     # Both are lists--replace at corresponding indices
                     # with corresponding values
                     # If the new list is shorter than the index list, cycle
@@ -3316,7 +3319,10 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
-                result[index] = new
+                try:
+                    result[index] = new
+                except (IndexError, ZeroDivisionError):
+                    self.err.warn("Cannot replace at index of empty value")
                 return result
         elif index is nil:
             # Replacing at nil index leaves lhs unchanged
-- 
2.43.0


From 7c8a5966fa6ea358258120362dce11c4bc963532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:38 +0000
Subject: [PATCH 43/51] fix: TR with a number that is not a character code
 doesn't crash

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 37f2060..6128acb 100644
--- a/execution.py
+++ b/execution.py
@@ -4125,7 +4125,11 @@ class ProgramState:
                 if isinstance(newChar, str):
                     newChar = ord(newChar)
                 elif isinstance(newChar, Scalar):
-                    newChar = newChar.toNumber()
+                    newChar = int(newChar)
+                    if not 0 <= newChar <= sys.maxunicode:
+                        self.err.warn("Cannot TRANSLITERATE to character code",
+                                      newChar)
+                        continue
                 elif newChar is nil:
                     newChar = None
                 else:
-- 
2.43.0


From 1435667be04ffa429f116989aca5d80f061f3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 44/51] fix: an empty or one-character regex can be repeated
 and combined

---
 ptypes.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index 98b2c61..336fea0 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -230,23 +230,32 @@ class Pattern(PipType):
         return copy
 
     def wrap(self):
-        if len(self._raw) > 1:
+        if len(self._raw) > 1 or self._raw in ("^", "$", "|"):
             return Pattern(f"(?:{self._raw})", self._flags)
         else:
-            # A length-1 regex doesn't need to be wrapped
+            # Other length-1 regexes don't need to be wrapped
             return self
 
     def group(self):
         return Pattern(f"({self._raw})", self._flags)
 
     def kleeneStar(self):
+        if self.isEmpty():
+            # Repeating an empty regex has no effect
+            return self
         return Pattern(f"{self._raw}*", self._flags)
 
     def plus(self):
+        if self.isEmpty():
+            # Repeating an empty regex has no effect
+            return self
         return Pattern(f"{self._raw}+", self._flags)
 
     def repeat(self, count):
-        if isinstance(count, int):
+        if self.isEmpty():
+            # Repeating an empty regex has no effect
+            return self
+        elif isinstance(count, int):
             return Pattern(f"{self._raw}{{{count}}}", self._flags)
         else:
             raise TypeError(f"Cannot repeat Pattern by {type(count)}")
-- 
2.43.0


From ceb3592706c116781a86c82079cbe48ca37ecc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 45/51] fix: a random choice from an empty value or range gives
 nil

---
 execution.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 6128acb..ff60414 100644
--- a/execution.py
+++ b/execution.py
@@ -3122,6 +3122,9 @@ class ProgramState:
 
     def RANDCHOICE(self, iterable):
         if isinstance(iterable, PipIterable):
+            if len(iterable) == 0:
+                self.err.warn("Cannot choose from empty", type(iterable))
+                return nil
             index = random.randrange(len(iterable))
             return iterable[index]
         else:
@@ -3136,6 +3139,10 @@ class ProgramState:
             else:
                 lhs = int(lhs)
             rhs = int(rhs)
+            if lhs >= rhs:
+                self.err.warn("No numbers to choose from in RANDRANGE:",
+                              lhs, "to", rhs)
+                return nil
             return Scalar(random.randrange(lhs, rhs))
         else:
             self.err.warn("Unimplemented argtypes for RANDRANGE:",
@@ -3145,7 +3152,12 @@ class ProgramState:
     def RANDRANGETO(self, rhs):
         """Unary version of RANDRANGE."""
         if isinstance(rhs, Scalar):
-            return Scalar(random.randrange(int(rhs)))
+            rhs = int(rhs)
+            if rhs <= 0:
+                self.err.warn("No numbers to choose from in RANDRANGETO:",
+                              rhs)
+                return nil
+            return Scalar(random.randrange(rhs))
         else:
             self.err.warn("Unimplemented argtype for RANDRANGETO:",
                           type(rhs))
-- 
2.43.0


From 8f98dcbb1f19df6e694887e72e5d67a454aaba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:08 +0000
Subject: [PATCH 46/51] fix: deeply nested code crashed the parser
 (RecursionError)

The REPL ended, and the main program showed a traceback.
---
 parsing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parsing.py b/parsing.py
index 1617524..8f25ca8 100644
--- a/parsing.py
+++ b/parsing.py
@@ -11,11 +11,15 @@ err = ErrorReporter(warnings=True)  # TODO: get this setting from the args?
 def parse(tokenList):
     "Parses a list of tokens as a collection of statements."
     statements = []
-    # The last "token" is None, signalling end of program; or, we might meet
-    # a closing curly brace at the end of a block
-    while tokenList[0] is not None and tokenList[0] != "}":
-        statements.append(parseStatement(tokenList))
-        #!print(statements)
+    try:
+        # The last "token" is None, signalling end of program; or, we might
+        # meet a closing curly brace at the end of a block
+        while tokenList[0] is not None and tokenList[0] != "}":
+            statements.append(parseStatement(tokenList))
+            #!print(statements)
+    except RecursionError:
+        # We exceeded Python's max recursion depth
+        err.die("Code is nested too deeply", errorClass=BadSyntax)
     return statements
     
 def parseStatement(tokenList):
-- 
2.43.0


From 550e4a0c3b600ef26ad831655350f5aa125215c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:20 +0000
Subject: [PATCH 47/51] fix: -v crashed on a parse tree that is nested too
 deeply to be displayed

---
 pip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index fbe760b..50ad0b0 100644
--- a/pip.py
+++ b/pip.py
@@ -267,7 +267,11 @@ def pip(code=None, argv=None, interactive=True):
         print("Execution aborted.", file=sys.stderr)
         raise
     if options.verbose:
-        pprint.pprint(parse_tree)
+        try:
+            pprint.pprint(parse_tree)
+        except RecursionError:
+            # We exceeded Python's max recursion depth
+            print("(The parse tree is nested too deeply to be displayed)")
         print()
     state = ProgramState(listFormat, options.warnings)
     if options.readlines:
-- 
2.43.0


From 88cced94302ff84934e47a7a84bbb04bf5bf52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:20 +0000
Subject: [PATCH 48/51] fix: end of input at the prompt for command-line args
 crashed the interpreter

---
 pip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 50ad0b0..c5e28de 100644
--- a/pip.py
+++ b/pip.py
@@ -78,7 +78,10 @@ def pip(code=None, argv=None, interactive=True):
         print(f"=== Welcome to Pip, version {version.VERSION} ===")
         print("Enter command-line args, terminated by newline "
               "(-h for help, -R for repl):")
-        argv = input()
+        try:
+            argv = input()
+        except EOFError:
+            argv = ""
     if argv is not None:
         # Artificial command-line input was provided
         if isinstance(argv, list):
-- 
2.43.0


From 765e25454b0bd07179612c7c27c2a0e86b22036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 49/51] fix: a capture group around every regex changed the
 meaning of some

(?(1)...), octal escapes, escapes in character classes, \g<1> and leading
(?i) did not survive it, and `a)(b` became well-formed
---
 execution.py |  7 ++++---
 ptypes.py    | 20 +++-----------------
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/execution.py b/execution.py
index ff60414..7d193c6 100644
--- a/execution.py
+++ b/execution.py
@@ -458,7 +458,8 @@ class ProgramState:
 
     def assignRegexVars(self, matchObj):
         """Set regex match vars given a Python match object."""
-        groups = list(map(ptypes.toPipType, matchObj.groups()))
+        groups = list(map(ptypes.toPipType,
+                          (matchObj.group(), *matchObj.groups())))
         # Assign list of all groups (except the full match) to $$
         self.assign(Lval("$$"), List(groups[1:]))
         # Assign specific groups to variables $0 through $9
@@ -476,8 +477,8 @@ class ProgramState:
         self.assign(Lval("$'"), Scalar(matchObj.string[matchObj.end():]))
         # Assign lists of groups' start and end indices to $[ and $]
         # (not including the full match)
-        if len(matchObj.regs) > 2:
-            startIndices, endIndices = zip(*matchObj.regs[2:])
+        if len(matchObj.regs) > 1:
+            startIndices, endIndices = zip(*matchObj.regs[1:])
             startIndices = List(map(Scalar, startIndices))
             endIndices = List(map(Scalar, endIndices))
         else:
diff --git a/ptypes.py b/ptypes.py
index 336fea0..ee71425 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -192,15 +192,7 @@ class Pattern(PipType):
 
     def asRegex(self):
         if not self._compiled:
-            # Add an extra <all> capture group around the whole thing
-            pyRegex = f"(?P<all>{self._raw})"
-            # Increment the numbers of all back-references
-            pyRegex = re.sub(r"(?<!\\)((?:\\{2})*)\\([1-9]\d?)",
-                             lambda m: (m.group(1)
-                                        + "\\"
-                                        + str(int(m.group(2))+1)),
-                             pyRegex)
-            self._compiled = re.compile(pyRegex, self._flags)
+            self._compiled = re.compile(self._raw, self._flags)
         return self._compiled
 
     def asSeparator(self):
@@ -209,16 +201,10 @@ class Pattern(PipType):
         return self._separator
 
     def asReplacement(self):
-        # Increment all back-references
-        pyReplace = re.sub(r"(?<!\\)((?:\\{2})*)\\([1-9]\d?)",
-                           lambda m: (m.group(1)
-                                      + "\\"
-                                      + str(int(m.group(2))+1)),
-                           self._raw)
         # Turn unescaped ampersands into back-references to the whole match
         pyReplace = re.sub(r"(?<!\\)((?:\\{2})*)&",
-                           lambda m: m.group(1) + r"\g<all>",
-                           pyReplace)
+                           lambda m: m.group(1) + r"\g<0>",
+                           self._raw)
         # Turn escaped ampersands into literal ampersands
         pyReplace = pyReplace.replace("\\&", "&")
         return pyReplace
-- 
2.43.0


From 2b3bda21cb557dabbec82bb040876164656ca004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:38 +0000
Subject: [PATCH 50/51] fix: Python's FutureWarning about a character class
 appeared on stderr

---
 ptypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ptypes.py b/ptypes.py
index ee71425..4b462ce 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -5,10 +5,15 @@ import re
 import itertools
 import sys
 import types
+import warnings
 
 import tokens
 import parsing
 
+# Python warns about character classes that may get another meaning in future
+# versions; that is of no concern to the Pip programmer
+warnings.filterwarnings("ignore", "Possible (nested )?set", FutureWarning)
+
 zeroRgx = re.compile(r"(0+(\.0*)?|0*\.0+)\Z")
 exp = r"(?:e[+-]\d+)"
 pyFloatRgx = re.compile(rf"-?(\d+\.\d*{exp}?|\d+{exp}|\.\d+{exp}?)")
-- 
2.43.0


From 96201b427f0956800045f51902ca52ac28cdfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:57 +0000
Subject: [PATCH 51/51] fix: report undecodable input as a fatal error

With a strict UTF-8 standard input, reading the program (-i), the
arguments (-r) or the answers to the prompts, and displaying an undecodable
program (-v), raised UnicodeError out of main() and run() as a traceback.
---
 pip.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pip.py b/pip.py
index c5e28de..6ad845e 100644
--- a/pip.py
+++ b/pip.py
@@ -54,6 +54,10 @@ def main():
     except FatalError:
         # The pip() function already gave the appropriate error output
         sys.exit(1)
+    except UnicodeError as err:
+        # The input cannot be decoded, or the program cannot be displayed
+        print("Fatal error:", err, file=sys.stderr)
+        sys.exit(1)
 
 
 def run(code=None, argv=None):
@@ -69,6 +73,9 @@ def run(code=None, argv=None):
     except FatalError:
         # The pip() function already gave the appropriate error output
         pass
+    except UnicodeError as err:
+        # The input cannot be decoded, or the program cannot be displayed
+        print("Fatal error:", err, file=sys.stderr)
 
 
 def pip(code=None, argv=None, interactive=True):
-- 
2.43.0

