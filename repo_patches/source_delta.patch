From bb0ea00484eaa1db3b1f0125bd630cae95979838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 01/18] fix: end the REPL cleanly at end of input

---
 pip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 80b5c11..7fa86cb 100644
--- a/pip.py
+++ b/pip.py
@@ -390,7 +390,8 @@ def repl(list_format=None, warnings=False):
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (KeyboardInterrupt, EOFError):
+        # The user pressed Ctrl-C or Ctrl-D at a prompt
         pass
     print("Bye!")
 
-- 
2.43.0


From b6f285242a20999d239a0c63ee7e7f46bcfc0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 02/18] fix: keep the REPL alive when a statement fails with
 any error

---
 pip.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pip.py b/pip.py
index 7fa86cb..3be8dce 100644
--- a/pip.py
+++ b/pip.py
@@ -344,10 +344,12 @@ def repl(list_format=None, warnings=False):
                         # incomplete string/expression/command; read
                         # another line, add it to the code, and try again
                         code += input(".. ") + "\n"
-            except BadSyntax as err:
+            except (BadSyntax, RuntimeError, MemoryError) as err:
                 # Error while scanning or parsing that cannot be
                 # resolved by adding more code to the end; give up
                 # on this code and start over
+                # RuntimeError probably means that the code is nested
+                # too deeply for Python's max recursion depth
                 print("Syntax error:", err, file=sys.stderr)
                 continue
             # Some Pip comments are used as repl commands
@@ -384,10 +386,13 @@ def repl(list_format=None, warnings=False):
                     if result is not None:
                         state.PRINT(state.REPR(result))
                         state.updateHistoryVars(result)
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
-                print("Fatal error:", err, file=sys.stderr)
+            except Exception as err:
+                # Besides FatalErrors, this includes RuntimeErrors
+                # (probably we exceeded Python's max recursion depth)
+                # and errors like dividing by zero that an operator
+                # didn't handle; none of them should end the session
+                print("Fatal error:", err or type(err).__name__,
+                      file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
     except (KeyboardInterrupt, EOFError):
-- 
2.43.0


From d9904c721dd035df207966cfdc80c1f06c60dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 03/18] fix: restore the top-level scope after an aborted REPL
 statement

---
 execution.py | 6 ++++++
 pip.py       | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/execution.py b/execution.py
index d1c0b2b..908e06b 100644
--- a/execution.py
+++ b/execution.py
@@ -431,6 +431,12 @@ class ProgramState:
             self.localScope = None
         self.callDepth -= 1
 
+    def returnToTopLevel(self):
+        """Discard the scopes of function calls that were aborted."""
+        del self.scopes[1:]
+        self.localScope = self.scopes[0]
+        self.callDepth = -1
+
     def updateHistoryVars(self, newValue):
         """Set $_ to new value and bump history vars down one spot."""
         if self.isDefined("$_"):
diff --git a/pip.py b/pip.py
index 3be8dce..330472c 100644
--- a/pip.py
+++ b/pip.py
@@ -380,6 +380,9 @@ def repl(list_format=None, warnings=False):
                         print("Warnings",
                               "on" if state.err.warnings else "off",
                               file=sys.stderr)
+            # If the previous code was aborted inside a function call, get
+            # rid of that function's local scope
+            state.returnToTopLevel()
             try:
                 for statement in parse_tree:
                     result = state.executeStatement(statement)
-- 
2.43.0


From 27251f393467acb117ea5eb3ebe59a699b436001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 04/18] fix: copy values when binding them to variables

---
 execution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 908e06b..2b5fa95 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,9 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            # Copy the value so that modifying the variable in place can't
+            # affect a constant or another variable
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +390,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
@@ -622,7 +624,7 @@ class ProgramState:
             }
         self.vars["\\g"] = List(self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg
+            self.vars["\\" + name] = arg.copy()
         if self.mainFunction is not None:
             self.vars["\\f"] = self.mainFunction
         else:
@@ -4390,7 +4392,7 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
             self.vars["g"] = List(argList)
 
-- 
2.43.0


From 52d62f2d4dbfb58259448e81d9a6de3008da4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 05/18] fix: do not modify the operand of WV, and return nil
 for bad types

---
 execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 2b5fa95..713a679 100644
--- a/execution.py
+++ b/execution.py
@@ -4189,7 +4189,8 @@ class ProgramState:
         if iterable2 is None:
             # Unary version: rhs is expected to be a list of iterables to be
             # woven together
-            iterables = iterable1
+            # Copy the list, since nil items are going to be replaced in it
+            iterables = iterable1.copy()
             if isinstance(iterables, Scalar):
                 # Weaving the characters just results in the same thing anyway
                 return iterables
@@ -4216,6 +4217,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From 7463d7eba368c6eb15e3ff240f0e11186a993c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 06/18] fix: do not swallow interrupts in @?

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 713a679..38c4664 100644
--- a/execution.py
+++ b/execution.py
@@ -1604,7 +1604,7 @@ class ProgramState:
               or isinstance(iterable, List)):
             try:
                 return Scalar(iterable.index(item))
-            except:
+            except (TypeError, ValueError):
                 # Item not found
                 return nil
         else:
-- 
2.43.0


From e1b02cd1179225ad6d636d7743078be189027d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 07/18] fix: undefined names in warning messages

---
 execution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index 38c4664..a7cb69d 100644
--- a/execution.py
+++ b/execution.py
@@ -378,7 +378,7 @@ class ProgramState:
                 try:
                     currentVal = currentVal[index]
                 except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                    self.err.warn(f"Invalid index into {currentVal!r}: {index}")
                     return
                 
             # Final level--do the assignment
@@ -2262,7 +2262,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4321,7 +4321,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 6e960604d81baf9b3dca76cfc972dedbd2027407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 08/18] fix: return nil from INCLRANGE for an unsupported right
 operand

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index a7cb69d..3a9264e 100644
--- a/execution.py
+++ b/execution.py
@@ -1901,7 +1901,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From 3dc7b9d2fbfc4e3da02a9f83ecad130a9771c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 09/18] fix: notice a failed write of pending output before
 reading a line

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index 3a9264e..f6ee971 100644
--- a/execution.py
+++ b/execution.py
@@ -484,6 +484,8 @@ class ProgramState:
     ################################
 
     def getq(self):
+        # Write pending output now: if that fails, input() would ignore it
+        sys.stdout.flush()
         try:
             line = Scalar(input())
         except EOFError:
-- 
2.43.0


From c1d3cba866db59c34246a1ce32cccc277dd7c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 10/18] fix: evaluate -x arguments completely before the
 program starts

---
 pip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pip.py b/pip.py
index 330472c..9b9ea65 100644
--- a/pip.py
+++ b/pip.py
@@ -292,9 +292,11 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise
-            parsed_arg = arg_parse_tree[0]
             try:
-                program_args.append(state.evaluate(parsed_arg))
+                parsed_arg = arg_parse_tree[0]
+                # Get the value now, in case the argument is a variable
+                arg_value = state.getRval(state.evaluate(parsed_arg))
+                program_args.append(arg_value)
             except (FatalError, RuntimeError) as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
-- 
2.43.0


From 47d2d6cf2850deb0ab7792626c3f41b6a09f8656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 11/18] fix: name REPL errors that have no message

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 9b9ea65..47cefb2 100644
--- a/pip.py
+++ b/pip.py
@@ -396,7 +396,7 @@ def repl(list_format=None, warnings=False):
                 # (probably we exceeded Python's max recursion depth)
                 # and errors like dividing by zero that an operator
                 # didn't handle; none of them should end the session
-                print("Fatal error:", err or type(err).__name__,
+                print("Fatal error:", str(err) or type(err).__name__,
                       file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-- 
2.43.0


From 46fa4e3e145e18858b942478f034acdb0f7c6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 12/18] fix: report any error during a run as a fatal error

---
 pip.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pip.py b/pip.py
index 47cefb2..fa0c5be 100644
--- a/pip.py
+++ b/pip.py
@@ -257,9 +257,13 @@ def pip(code=None, argv=None, interactive=True):
         print()
     try:
         parse_tree = parse(tokens)
-    except FatalError as err:
+    except (FatalError, RuntimeError, MemoryError) as err:
+        # RuntimeError probably means that the code is nested too deeply
+        # for Python's max recursion depth
         print("Fatal error while parsing:", err, file=sys.stderr)
         print("Execution aborted.", file=sys.stderr)
+        if not isinstance(err, FatalError):
+            raise FatalError(str(err))
         raise
     if options.verbose:
         pprint.pprint(parse_tree)
@@ -287,21 +291,26 @@ def pip(code=None, argv=None, interactive=True):
                 raise
             try:
                 arg_parse_tree = parse(arg_tokens)
-            except FatalError as err:
+            except (FatalError, RuntimeError, MemoryError) as err:
+                # RuntimeError probably means that the code is nested too deeply
+                # for Python's max recursion depth
                 print(f"Fatal error while parsing argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
+                if not isinstance(err, FatalError):
+                    raise FatalError(str(err))
                 raise
             try:
                 parsed_arg = arg_parse_tree[0]
                 # Get the value now, in case the argument is a variable
                 arg_value = state.getRval(state.evaluate(parsed_arg))
                 program_args.append(arg_value)
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Besides FatalErrors, this includes RuntimeErrors
+                # (probably we exceeded Python's max recursion depth)
+                # and errors that an operator didn't handle
                 print(f"Fatal error while evaluating argument {arg!r}:",
-                      err, file=sys.stderr)
+                      str(err) or type(err).__name__, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise FatalError(str(err))
             except KeyboardInterrupt:
@@ -316,10 +325,12 @@ def pip(code=None, argv=None, interactive=True):
         print("Executing...")
     try:
         state.executeProgram(parse_tree, program_args)
-    except (FatalError, RuntimeError) as err:
-        # RuntimeError probably means we exceeded Python's max
-        # recursion depth
-        print("Fatal error during execution:", err, file=sys.stderr)
+    except Exception as err:
+        # Besides FatalErrors, this includes RuntimeErrors (probably we
+        # exceeded Python's max recursion depth) and errors like dividing
+        # by zero that an operator didn't handle
+        print("Fatal error during execution:", str(err) or type(err).__name__,
+              file=sys.stderr)
         print("Program terminated.", file=sys.stderr)
         raise FatalError(str(err))
     except KeyboardInterrupt:
-- 
2.43.0


From 572ebb451fa0b7d3d718ee3552a3198a3bd25d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 13/18] fix: keep a program's seed from affecting later runs

---
 execution.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index f6ee971..c97374c 100644
--- a/execution.py
+++ b/execution.py
@@ -45,6 +45,8 @@ class ProgramState:
             "q": {"get": self.getq},
             "r": {"get": self.getr, "set": self.setr},
             }
+        # Source of random numbers; a program that sets r gets its own
+        self.random = random
         # Initialize empty outermost local scope (used only in REPL)
         self.localScope = LocalScope()
         # Keep a call stack of local scopes
@@ -493,10 +495,10 @@ class ProgramState:
         return line
 
     def getr(self):
-        return Scalar(random.random())
+        return Scalar(self.random.random())
 
     def setr(self, rhs):
-        random.seed(str(rhs))
+        self.random = random.Random(str(rhs))
 
     ################################
     ### Pip built-in commands    ###
@@ -3085,7 +3087,7 @@ class ProgramState:
 
     def RANDCHOICE(self, iterable):
         if isinstance(iterable, PipIterable):
-            index = random.randrange(len(iterable))
+            index = self.random.randrange(len(iterable))
             return iterable[index]
         else:
             self.err.warn("Unimplemented argtype for RANDCHOICE:",
@@ -3099,7 +3101,7 @@ class ProgramState:
             else:
                 lhs = int(lhs)
             rhs = int(rhs)
-            return Scalar(random.randrange(lhs, rhs))
+            return Scalar(self.random.randrange(lhs, rhs))
         else:
             self.err.warn("Unimplemented argtypes for RANDRANGE:",
                           type(lhs), "and", type(rhs))
@@ -3108,7 +3110,7 @@ class ProgramState:
     def RANDRANGETO(self, rhs):
         """Unary version of RANDRANGE."""
         if isinstance(rhs, Scalar):
-            return Scalar(random.randrange(int(rhs)))
+            return Scalar(self.random.randrange(int(rhs)))
         else:
             self.err.warn("Unimplemented argtype for RANDRANGETO:",
                           type(rhs))
@@ -3512,7 +3514,7 @@ class ProgramState:
         """Return a random permutation of the iterable."""
         if isinstance(iterable, PipIterable):
             items = list(iterable)
-            random.shuffle(items)
+            self.random.shuffle(items)
             if isinstance(iterable, Scalar):
                 return self.JOIN(items)
             else:
-- 
2.43.0


From 359a77951b4aefa5982a9afa67e975969dbc337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 14/18] fix: verbose output of deeply nested programs

---
 pip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index fa0c5be..c93742d 100644
--- a/pip.py
+++ b/pip.py
@@ -266,7 +266,11 @@ def pip(code=None, argv=None, interactive=True):
             raise FatalError(str(err))
         raise
     if options.verbose:
-        pprint.pprint(parse_tree)
+        try:
+            print(pprint.pformat(parse_tree))
+        except RecursionError:
+            # Nested too deeply for the pretty-printer
+            print(parse_tree)
         print()
     state = ProgramState(listFormat, options.warnings)
     if options.readlines:
-- 
2.43.0


From f4b427f94a9433a6ff01dadd49d5fa579b7ca515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 15/18] fix: let a pattern contain a backslash before a line
 break

The pattern regex could not match a backslash followed by a newline, so an
entry such as a backquote and a backslash could never be completed: the REPL
held it open and swallowed every later entry.
---
 scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanning.py b/scanning.py
index 881ff16..3ba4b9a 100644
--- a/scanning.py
+++ b/scanning.py
@@ -14,7 +14,7 @@ nameRgx = re.compile(r"[A-Z]+"
                      r"|\$_{1,3}"
                      r"|\\[a-g]")
 stringRgx = re.compile(r'"[^"]*"')
-patternRgx = re.compile(r'`([^`\\]|\\.)*`')
+patternRgx = re.compile(r'`([^`\\]|\\(.|\n))*`')
 charRgx = re.compile(r"'(.|\n)")
 escStringRgx = re.compile(r'\\"(\\[^"]|[^\\])*\\"')
 numberRgx = re.compile(r'\d+(\.\d+)?')
-- 
2.43.0


From 5f6af1826c7714fafab474fab82920f9a32df32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 16/18] fix: put values, not Lvals, into the result of a mapped
 operator

V*, Y*, YO* and YP* built Lists of Lval objects, so programs displayed Python
object addresses, different at every run, instead of the values.
---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index c97374c..71ad2ef 100644
--- a/execution.py
+++ b/execution.py
@@ -697,7 +697,8 @@ class ProgramState:
             newReturnExpr = [operator, returnExpr]
             return Block(statements, newReturnExpr)
         elif isinstance(iterable, PipIterable):
-            return List(self.evaluate([normalOp, item]) for item in iterable)
+            # The operator may return an Lval; a List can only contain rvals
+            return List(self.getRval([normalOp, item]) for item in iterable)
         elif iterable is nil:
             return nil
         else:
-- 
2.43.0


From 9a375608bd6ce5bbc8b05d46f903457d6661daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:15 +0000
Subject: [PATCH 17/18] fix: an interrupted WG leaves no global variables half
 reset

---
 execution.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/execution.py b/execution.py
index 71ad2ef..1768212 100644
--- a/execution.py
+++ b/execution.py
@@ -583,7 +583,7 @@ class ProgramState:
 
     def WIPEGLOBALS(self):
         """Reset all global variables to their default values."""
-        self.vars = {
+        variables = {
             "_": Block([], tokens.Name("a")),
             "h": Scalar("100"),
             "i": Scalar("0"),
@@ -626,13 +626,15 @@ class ProgramState:
             "XX": Pattern("."),
             "XY": Pattern("[aeiouy]"),
             }
-        self.vars["\\g"] = List(self.args)
+        variables["\\g"] = List(self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg.copy()
+            variables["\\" + name] = arg.copy()
         if self.mainFunction is not None:
-            self.vars["\\f"] = self.mainFunction
+            variables["\\f"] = self.mainFunction
         else:
-            self.vars["\\f"] = nil
+            variables["\\f"] = nil
+        # An interruption must not leave only some of the variables reset
+        self.vars = variables
 
     ###############################
     ### Pip meta-operators      ###
-- 
2.43.0


From c24c6bf9ddb0fad871f77a0a1cdd5fea4c174028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:36 +0000
Subject: [PATCH 18/18] fix: a failed item assignment to a Range variable
 turned it into a List

---
 execution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 1768212..72fabcd 100644
--- a/execution.py
+++ b/execution.py
@@ -365,11 +365,11 @@ class ProgramState:
                           base)
             return
 
-        currentVal = varTable[base]
+        newVal = currentVal = varTable[base]
         if isinstance(currentVal, Range):
             # Can't modify a Range in place... cast it to a List first
             # This way we can do things like r:,9 r@4:42
-            currentVal = varTable[base] = List(currentVal)
+            newVal = currentVal = List(currentVal)
         
         if isinstance(currentVal, (List, Scalar)):
             # Assignment to a subindex
@@ -393,6 +393,8 @@ class ProgramState:
             index = lval.sliceList[-1]
             try:
                 currentVal[index] = rval.copy()
+                # A Range only becomes a List if the assignment succeeded
+                varTable[base] = newVal
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
-- 
2.43.0

