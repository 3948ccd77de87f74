From ecd32a284e347e98dad6f39b8e4bf5c9e4d1ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 01/84] fix: keep line numbers when preprocessing drops a
 directive

Skipped #define/#undef/#pragma lines were left out of the preprocessed text,
so every #pragma pack further down applied to the wrong lines.
---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..72c9711 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -855,7 +855,8 @@ class CParser(object):
         # Comb through lines, process all directives
         lines = text.split("\n")
 
-        result = []
+        # One (possibly empty) line per input line, so that line numbers are kept.
+        result = [""] * len(lines)
 
         directive = re.compile(r"\s*#\s*([a-zA-Z]+)(.*)$")
         if_true = [True]
@@ -1020,7 +1021,7 @@ class CParser(object):
                     mess = "Ignored directive {} at line {}"
                     logger.debug(mess.format(d, i))
 
-            result.append(new_line)
+            result[i] = new_line
         self.files[path] = "\n".join(result)
 
     def eval_preprocessor_expr(self, expr):
-- 
2.43.0


From 92ecb3b72b3442e947bd2cb4b74a43f87dd39afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 02/84] fix: #if handles != and every form of integer literal

'!' was replaced inside '!=', and the letters of hexadecimal, octal or
suffixed literals were taken for unknown identifiers.
---
 pyclibrary/c_parser.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 72c9711..16a1477 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1027,7 +1027,9 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            c_int
+            | Literal("!=")
+            | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
@@ -1796,6 +1798,19 @@ int_strip = lambda t: t[0].rstrip("UL")  # noqa
 hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
 decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
 integer = hexint | decint
+
+
+def _c_int_to_python(t):
+    """Write a C integer literal (no sign) the way Python does."""
+    val = t[0].rstrip("uUlL")
+    if re.match(r"0[0-7]+$", val):
+        val = "0o" + val[1:]
+    return val
+
+
+c_int = Regex(r"(?<![\w.])(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*(?![\w.])").setParseAction(
+    _c_int_to_python
+)
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
 floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
-- 
2.43.0


From 90a9ac11894a8d72d94cdfe258a70711e0d39c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 03/84] fix: Python names are not C constants

'#define X int' had the Python class int as its value, and any name of the
parser module or of builtins could end up in defs['values'].
---
 pyclibrary/c_parser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 16a1477..2c7d5de 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1037,7 +1037,7 @@ class CParser(object):
         expr2 = macro_diffs.transformString(expr).strip()
 
         try:
-            ev = bool(eval(expr2))
+            ev = bool(c_eval(expr2))
         except Exception:
             mess = "Error evaluating preprocessor expression: {} [{}]\n{}"
             logger.debug(mess.format(expr, repr(expr2), format_exc()))
@@ -1665,7 +1665,7 @@ class CParser(object):
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
-        return eval(expr, *args)
+        return c_eval(expr, *args)
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
@@ -1743,6 +1743,18 @@ class CParser(object):
         return res
 
 
+def c_eval(expr, globals=None, locals=None):
+    """Evaluate an expression in which only the given names are known.
+
+    In particular Python builtins and the names of this module are not C
+    constants.
+
+    """
+    env = {"__builtins__": {}}
+    env.update(globals or {})
+    return eval(expr, env, locals if locals is not None else {})
+
+
 # --- Basic parsing elements.
 
 
-- 
2.43.0


From 1743f2dc80bd4960a87917095cc050cb24b0aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 04/84] fix: divide integers like C does

7/2 was evaluated to 3.5 and -7%2 to 1, in #if conditions, array dimensions
and constants.
---
 pyclibrary/c_parser.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2c7d5de..d019bd8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -11,6 +11,7 @@ function signatures from C header files.
 
 """
 
+import ast
 import logging
 import os
 import re
@@ -1743,6 +1744,34 @@ class CParser(object):
         return res
 
 
+def _c_div(a, b):
+    """Division as done by C: integers are truncated towards zero."""
+    if isinstance(a, int) and isinstance(b, int):
+        q = abs(a) // abs(b)
+        return q if (a < 0) == (b < 0) else -q
+    return a / b
+
+
+def _c_mod(a, b):
+    """Remainder as done by C: it has the sign of the first operand."""
+    if isinstance(a, int) and isinstance(b, int):
+        return a - b * _c_div(a, b)
+    raise TypeError("invalid operands to %")
+
+
+class _CDivision(ast.NodeTransformer):
+    """Give / and % their C meaning."""
+
+    def visit_BinOp(self, node):
+        self.generic_visit(node)
+        fn = {ast.Div: "/", ast.Mod: "%"}.get(type(node.op))
+        if fn is None:
+            return node
+        # Names which cannot clash with those of C constants
+        func = ast.Name(id=fn, ctx=ast.Load())
+        return ast.Call(func=func, args=[node.left, node.right], keywords=[])
+
+
 def c_eval(expr, globals=None, locals=None):
     """Evaluate an expression in which only the given names are known.
 
@@ -1750,9 +1779,11 @@ def c_eval(expr, globals=None, locals=None):
     constants.
 
     """
-    env = {"__builtins__": {}}
+    tree = _CDivision().visit(ast.parse(expr.strip(), mode="eval"))
+    code = compile(ast.fix_missing_locations(tree), "<C expression>", "eval")
+    env = {"__builtins__": {}, "/": _c_div, "%": _c_mod}
     env.update(globals or {})
-    return eval(expr, env, locals if locals is not None else {})
+    return eval(code, env, locals if locals is not None else {})
 
 
 # --- Basic parsing elements.
-- 
2.43.0


From 929af618055778331cdfed6c6eabfa014fbf2ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 05/84] fix: octal literals and lower case suffixes in
 constants

010 could not be evaluated, 10u or 10l made the whole declaration
unparsable, and the U or L of an identifier such as CH1L was dropped.
---
 pyclibrary/c_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d019bd8..23ba2ff 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1663,7 +1663,7 @@ class CParser(object):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
         cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
-        expr = (quotedString | number | cast).transformString(expr)
+        expr = (quotedString | floating | c_int | cast).transformString(expr)
         if expr == "":
             return None
         return c_eval(expr, *args)
@@ -1837,9 +1837,9 @@ lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("UL")  # noqa
-hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
-decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
+int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
+hexint = Regex(r"[+-]?\s*0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(int_strip)
+decint = Regex(r"[+-]?\s*[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
 
 
-- 
2.43.0


From eeb72c64cf27a82662ad52949c74b5d7ff51c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 06/84] fix: do not lose an enum

An enumerator set to a character constant or to something that cannot be
evaluated lost the whole enum, and naming an enum ahead of its definition
hid the definition.
---
 pyclibrary/c_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 23ba2ff..3cf9896 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1494,18 +1494,19 @@ class CParser(object):
 
             logger.debug("  name: {}".format(name))
 
-            if name not in self.defs["enums"]:
+            if len(t.members) > 0 or name not in self.defs["enums"]:
                 i = 0
                 enum = {}
                 for v in t.members:
                     if v.value != "":
-                        try:
-                            i = self.eval_expr(v.value)
-                        except Exception:
-                            pass
+                        i = self.eval_expr(v.value)
+                        if isinstance(i, str):
+                            # Character constant
+                            i = ord(i) if len(i) == 1 else None
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
-                    i += 1
+                    if i is not None:
+                        i += 1
                 logger.debug("  members: {}".format(enum))
                 self.add_def("enums", name, enum)
                 self.add_def("types", "enum " + name, Type("enum", name))
-- 
2.43.0


From e42622634616bd89f67c1b555c524f629b642065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 07/84] fix: a constant in parentheses is no cast

(A) + 1 was evaluated to 1 when A is an enumerator.
---
 pyclibrary/c_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3cf9896..f47dfae 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1663,7 +1663,13 @@ class CParser(object):
     def eval(self, expr, *args):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
-        cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
+        values = self.defs["values"]
+        cast = (
+            (lparen + self.type_spec + self.abstract_declarator + rparen)
+            # A constant in parentheses is no cast
+            .addCondition(lambda t: values.get(t[0]["name"]) is None)
+            .suppress()
+        )
         expr = (quotedString | floating | c_int | cast).transformString(expr)
         if expr == "":
             return None
@@ -1970,7 +1976,8 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     # Is there a better way to process expressions with cast operators??
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")").suppress()
+        # Followed by one of those it may as well be a constant in parentheses.
+        + Optional("(" + ident + ")" + ~oneOf("+ - * &")).suppress()
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From b871f88edf1abb648cf1701f2dc979d2254c153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 08/84] fix: accept ~, !, & and casts to fundamental types in
 expressions

A declaration with such an initialiser, dimension or enumerator value was
not recognised at all.
---
 pyclibrary/c_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f47dfae..5299dc3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1869,7 +1869,7 @@ number = floating | integer
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * sizeof new")
+uni_left_operator = oneOf("++ -- - + * & ~ ! sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
@@ -1974,10 +1974,15 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     ).setParseAction(lambda t: " ".join(t))
 
     # Is there a better way to process expressions with cast operators??
+    cast = (
+        "(" + fund_type + ZeroOrMore("*") + ")"
+        | "(" + ident + OneOrMore("*") + ")"
+        # Followed by one of those it may as well be a constant in parentheses.
+        | "(" + ident + ")" + ~oneOf("+ - * &")
+    )
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        # Followed by one of those it may as well be a constant in parentheses.
-        + Optional("(" + ident + ")" + ~oneOf("+ - * &")).suppress()
+        + Optional(cast).suppress()
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From 52b8c8c0c638efd124aa2c4580e7198773244fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 09/84] fix: expand macros around string and character literals

Expansion stopped at the first string literal of a line, names inside
character literals were expanded, and a string ending in an escaped
backslash was not recognised as closed.
---
 pyclibrary/c_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5299dc3..92d187e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1078,12 +1078,12 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args)
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(r"({})|(\b({})\b)".format(literal_re, args_str))
         start = 0
         parts = []
         arg_order = []
         # The group number to check for macro names
-        N = 3
+        N = 2
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
@@ -1099,10 +1099,10 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(r"({})|(\b(\w+)\b)".format(literal_re))
         parts = []
         # The group number to check for macro names
-        N = 3
+        N = 2
         macros = self.defs["macros"]
         fnmacros = self.defs["fnmacros"]
         while True:
@@ -1130,7 +1130,7 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
@@ -1843,6 +1843,9 @@ rbrack = Literal("]").ignore(quotedString).suppress()
 lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
+# A string or character literal
+literal_re = r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
+
 # Numbers
 int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
 hexint = Regex(r"[+-]?\s*0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(int_strip)
-- 
2.43.0


From 8587815a8efa58888b445d1c216ee7da7294d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 10/84] fix: #undef and redefinition forget the previous macro

#undef ignored function macros, a macro redefined with or without
parameters kept both definitions, and a macro undefined by another file
than the one defining it stayed in the definitions of that file (and came
back from a cache).
---
 pyclibrary/c_parser.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 92d187e..ce35fbe 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -963,12 +963,7 @@ class CParser(object):
                 elif d == "undef":
                     if not if_true[-1]:
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    self.rem_macro(macroName.strip())
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
@@ -1050,11 +1045,13 @@ class CParser(object):
         logger.debug("Processing MACRO: {}".format(t))
         macro_val = t.value.strip()
         if macro_val in self.defs["fnmacros"]:
+            self.rem_macro(t.macro, "macros")
             self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
             logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
 
         else:
             if t.args == "":
+                self.rem_macro(t.macro, "fnmacros")
                 val = self.eval_expr(macro_val)
                 self.add_def("macros", t.macro, macro_val)
                 self.add_def("values", t.macro, val)
@@ -1062,6 +1059,7 @@ class CParser(object):
                 logger.debug(mess.format(t.macro, val, self.defs["macros"][t.macro]))
 
             else:
+                self.rem_macro(t.macro, "macros")
                 self.add_def(
                     "fnmacros",
                     t.macro,
@@ -1692,16 +1690,19 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from both the global
+        definition set and the definition sets of the files.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        for defs in self.file_defs.values():
+            defs[typ].pop(name, None)
+
+    def rem_macro(self, name, *kinds):
+        """Remove the definitions of a macro, if there are any."""
+        for typ in kinds or ("macros", "fnmacros"):
+            if name in self.defs[typ]:
+                self.rem_def(typ, name)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From d14a97ac62691f982dcf7c55b1950f6637bad645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 11/84] fix: function macros whose body holds braces

The braces were taken for replacement fields when expanding the macro.
---
 pyclibrary/c_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ce35fbe..a940544 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1080,6 +1080,8 @@ class CParser(object):
         start = 0
         parts = []
         arg_order = []
+        # The description is a format string
+        text = text.replace("{", "{{").replace("}", "}}")
         # The group number to check for macro names
         N = 2
         for m in arg_regex.finditer(text):
-- 
2.43.0


From 82190dd6e33aae415e7e0e1c78eeed526958a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 12/84] fix: tell function macros by the parenthesis following
 the name

'#define A (B)' defined a function macro with parameter B and
'#define F() 1' an object macro with value '() 1'.
---
 pyclibrary/c_parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a940544..1283b31 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -845,10 +845,13 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        # The parameters have to follow the name immediately
+        deli_list = Optional(
+            Group(lparen.copy().leaveWhitespace() + Optional(delimitedList(name)) + rparen)
+        )
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
-            + deli_list.setWhitespaceChars(" \t")("args")
+            + deli_list("args")
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
@@ -953,7 +956,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        self.pp_define.parseString(macroName + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
@@ -1044,7 +1047,7 @@ class CParser(object):
         """Parse a #define macro and register the definition."""
         logger.debug("Processing MACRO: {}".format(t))
         macro_val = t.value.strip()
-        if macro_val in self.defs["fnmacros"]:
+        if t.args == "" and macro_val in self.defs["fnmacros"]:
             self.rem_macro(t.macro, "macros")
             self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
             logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
@@ -1063,7 +1066,7 @@ class CParser(object):
                 self.add_def(
                     "fnmacros",
                     t.macro,
-                    self.compile_fn_macro(macro_val, list(t.args)),
+                    self.compile_fn_macro(macro_val, list(t.args[0])),
                 )
                 mess = "  Add fn macro: {} ({}); {}"
                 logger.debug(
@@ -1075,7 +1078,7 @@ class CParser(object):
     def compile_fn_macro(self, text, args):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
-        args_str = "|".join(args)
+        args_str = "|".join(args) or "(?!)"
         arg_regex = re.compile(r"({})|(\b({})\b)".format(literal_re, args_str))
         start = 0
         parts = []
-- 
2.43.0


From 6a4985607e4905b8fcdfc4d8e6f5129863e6dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 13/84] fix: split the arguments of function macros like C does

Parentheses, commas and parentheses in literals inside an argument ended
it, and a name not followed by a parenthesis took the next one found on
the line.
---
 pyclibrary/c_parser.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1283b31..b2f5801 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1145,19 +1145,38 @@ class CParser(object):
         # defn looks like ('%s + %s / %s', (0, 0, 1))
         defn = self.defs["fnmacros"][name]
 
-        try:
-            args, end = text.split(")", 1)
-            _, args = args.split("(", 1)
-            args = [a.strip() for a in args.split(",")]
-        except Exception:
-            mess = "Function macro {} argument analysis failed :\n{}"
-            raise DefinitionError(0, mess.format(name, format_exc()))
-
+        args, end = self.split_fn_macro_args(name, text)
         args = [self.expand_macros(arg) for arg in args]
         new_str = defn[0].format(*[args[i] for i in defn[1]])
 
         return (new_str, end)
 
+    def split_fn_macro_args(self, name, text):
+        """Split the text following the name of a function macro into the list
+        of the arguments and what comes after them.
+
+        """
+        opening = re.match(r"\s*\(", text)
+        if opening is not None:
+            args = []
+            start = opening.end()
+            depth = 0
+            reg = re.compile(r"{}|[(),]".format(literal_re))
+            for m in reg.finditer(text, start):
+                tok = m.group()
+                if tok == "(":
+                    depth += 1
+                elif tok == ")" and depth:
+                    depth -= 1
+                elif depth == 0 and tok in (",", ")"):
+                    args.append(text[start : m.start()].strip())
+                    start = m.end()
+                    if tok == ")":
+                        return args, text[start:]
+
+        mess = "Function macro {} argument analysis failed :\n{}"
+        raise DefinitionError(0, mess.format(name, text))
+
     # --- Compilation functions
 
     def parse_defs(self, path, return_unparsed=False):
-- 
2.43.0


From a0468534bda8b2097d0669a123389a5136f4df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:18 +0000
Subject: [PATCH 14/84] fix: parameters of a function macro hide macros of the
 same name

With a macro N defined, '#define SQ(N) N*N' defined an object macro.
---
 pyclibrary/c_parser.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b2f5801..aace935 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -902,13 +902,18 @@ class CParser(object):
                         .transformString(rest)
                     )
 
-                elif d in ["define", "undef"]:
-                    match = re.match(r"\s*([a-zA-Z_][a-zA-Z0-9_]*)(.*)$", rest)
-                    macroName, rest = match.groups()
+                macroParams = ""
+                if d in ["define", "undef"]:
+                    match = re.match(
+                        r"\s*([a-zA-Z_][a-zA-Z0-9_]*)(\([^)]*\))?(.*)$", rest
+                    )
+                    macroName, macroParams, rest = match.groups("")
 
                 # Expand macros if needed
                 if rest is not None and (all(if_true) or d in ["if", "elif"]):
-                    rest = self.expand_macros(rest)
+                    # The parameters of a macro hide macros of the same name
+                    hidden = re.findall(r"\w+", macroParams)
+                    rest = self.expand_macros(rest, hidden)
 
                 if d == "elif":
                     if if_hit[-1] or not all(if_true[:-1]):
@@ -956,7 +961,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + rest)
+                        self.pp_define.parseString(macroName + macroParams + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
@@ -1096,10 +1101,11 @@ class CParser(object):
         parts.append(text[start:])
         return ("".join(parts), arg_order)
 
-    def expand_macros(self, line):
+    def expand_macros(self, line, hidden=()):
         """Expand all the macro expressions in a string.
 
-        Faulty calls to macro function are left untouched.
+        Faulty calls to macro function are left untouched, as well as the names
+        listed in hidden.
 
         """
         reg = re.compile(r"({})|(\b(\w+)\b)".format(literal_re))
@@ -1113,6 +1119,8 @@ class CParser(object):
             if not m:
                 break
             name = m.groups()[N]
+            if name in hidden:
+                name = None
             if name in macros:
                 parts.append(line[: m.start(N)])
                 line = line[m.end(N) :]
@@ -1121,7 +1129,7 @@ class CParser(object):
             elif name in fnmacros:
                 # If function macro expansion fails, just ignore it.
                 try:
-                    exp, end = self.expand_fn_macro(name, line[m.end(N) :])
+                    exp, end = self.expand_fn_macro(name, line[m.end(N) :], hidden)
                 except Exception:
                     exp = name
                     end = line[m.end(N) :]
@@ -1140,13 +1148,13 @@ class CParser(object):
         parts.append(line)
         return "".join(parts)
 
-    def expand_fn_macro(self, name, text):
+    def expand_fn_macro(self, name, text, hidden=()):
         """Replace a function macro."""
         # defn looks like ('%s + %s / %s', (0, 0, 1))
         defn = self.defs["fnmacros"][name]
 
         args, end = self.split_fn_macro_args(name, text)
-        args = [self.expand_macros(arg) for arg in args]
+        args = [self.expand_macros(arg, hidden) for arg in args]
         new_str = defn[0].format(*[args[i] for i in defn[1]])
 
         return (new_str, end)
-- 
2.43.0


From 5c38be77d9e3f1b0f6c68001f01cc2bb59829e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 15/84] fix: initialisers and bit widths belong to a single
 declarator

'int a, b = 2;' gave the value to a as well, 'int a = 1, b;' was lost,
'int a, b:2;' gave the width to both members and 'int a:1, b:2;' lost the
struct. The width of a bit-field may be any constant expression.
---
 pyclibrary/c_parser.py | 61 +++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index aace935..8dd658f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1329,22 +1329,19 @@ class CParser(object):
         self.type_decl.setParseAction(self.process_typedef)
 
         # Variable declaration
+        initializer = Optional(
+            Literal("=").suppress()
+            + (
+                expression("value")
+                | (lbrace + Group(delimitedList(expression))("array_values") + rbrace)
+            )
+        )
+        init_declarator = Group(self.declarator("decl") + initializer)
         self.variable_decl = (
             Group(
                 storage_class_spec
                 + self.type_spec("type")
-                + Optional(self.declarator_list("decl_list"))
-                + Optional(
-                    Literal("=").suppress()
-                    + (
-                        expression("value")
-                        | (
-                            lbrace
-                            + Group(delimitedList(expression))("array_values")
-                            + rbrace
-                        )
-                    )
-                )
+                + Optional(Group(delimitedList(init_declarator))("decl_list"))
             )
             + semi
         )
@@ -1365,18 +1362,20 @@ class CParser(object):
         # Struct definition
         self.struct_decl = Forward()
         struct_kw = Keyword("struct") | Keyword("union")
+        bit_width = colon + expression("bit")
+        member_declarator = (
+            Group(self.declarator("decl") + bit_width)
+            | init_declarator
+            | Group(bit_width)
+        )
         self.struct_member = (
-            Group(self.variable_decl.copy().setParseAction(lambda: None))
-            |
-            # Hack to handle bit width specification.
             Group(
                 Group(
-                    self.type_spec("type")
-                    + Optional(self.declarator_list("decl_list"))
-                    + colon
-                    + integer("bit")
-                    + semi
+                    storage_class_spec
+                    + self.type_spec("type")
+                    + Optional(Group(delimitedList(member_declarator))("decl_list"))
                 )
+                + semi
             )
             | (self.type_spec + self.declarator + nestedExpr("{", "}")).suppress()
             | (self.declarator + nestedExpr("{", "}")).suppress()
@@ -1603,25 +1602,25 @@ class CParser(object):
                 struct = []
                 for m in t.members:
                     typ = m[0].type
-                    val = self.eval_expr(m[0].value)
                     logger.debug(
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
 
                     if len(m[0].decl_list) == 0:  # anonymous member
-                        member = [None, Type(typ[0]), None]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
-                        struct.append(tuple(member))
+                        struct.append((None, Type(typ["name"]), None))
 
                     for d in m[0].decl_list:
-                        (name, decl) = self.process_type(typ, d)
+                        if d.decl:
+                            (name, decl) = self.process_type(typ, d.decl[0])
+                        else:  # unnamed bit-field
+                            (name, decl) = (None, Type(typ["name"]))
+                        val = self.eval_expr(d)
                         member = [name, decl, val]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
+                        if d.bit:
+                            member.append(self.eval_expr(d.bit))
                         struct.append(tuple(member))
                         logger.debug(
-                            "      {} {} {} {}".format(name, decl, val, m[0].bit)
+                            "      {} {} {} {}".format(name, decl, val, d.bit)
                         )
 
                 str_cls = Struct if str_typ == "struct" else Union
@@ -1636,9 +1635,9 @@ class CParser(object):
         """ """
         logger.debug("VARIABLE: {}".format(t))
         try:
-            val = self.eval_expr(t[0])
             for d in t[0].decl_list:
-                (name, typ) = self.process_type(t[0].type, d)
+                val = self.eval_expr(d)
+                (name, typ) = self.process_type(t[0].type, d.decl[0])
                 # This is a function prototype
                 if type(typ[-1]) is tuple:
                     logger.debug(
-- 
2.43.0


From 920717b38e9c0d391e85414e8397571230c9f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 16/84] fix: #pragma pack(pop) goes back to the last matching
 push or is ignored

A pop too many stopped parsing with an IndexError, one naming an unknown
push dropped the current packing and one naming an identifier pushed twice
went back to the first push instead of the last one.
---
 pyclibrary/c_parser.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8dd658f..09096f7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -999,23 +999,21 @@ class CParser(object):
                         else:
                             id = o
 
-                    packing = val
-
                     if pushpop == "push":
+                        packing = val
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
-                        if id is None:
-                            pack_stack.pop()
-                        else:
-                            ind = None
-                            for j, s in enumerate(pack_stack):
-                                if s[1] == id:
-                                    ind = j
-                                    break
-                            if ind is not None:
-                                pack_stack = pack_stack[:ind]
-                        if val is None:
-                            packing = pack_stack[-1][0]
+                        # A pop without matching push is ignored. The first
+                        # item of the stack stands for the default packing.
+                        for j in range(len(pack_stack) - 1, 0, -1):
+                            if id is None or pack_stack[j][1] == id:
+                                pack_stack = pack_stack[:j]
+                                packing = pack_stack[-1][0]
+                                break
+                        if val is not None:
+                            packing = val
+                    else:
+                        packing = val
 
                     mess = ">> Packing changed to {} at line {}"
                     logger.debug(mess.format(str(packing), i))
-- 
2.43.0


From 9b29ec6e80cbebd78a0d6bd024bcf096e232c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 17/84] fix: #pragma pack(push) keeps the current packing

It was reset to the default one.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 09096f7..cc604ef 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1000,7 +1000,8 @@ class CParser(object):
                             id = o
 
                     if pushpop == "push":
-                        packing = val
+                        if val is not None:
+                            packing = val
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
                         # A pop without matching push is ignored. The first
-- 
2.43.0


From 366a681dae99967a467e430da58784e61808181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 18/84] fix: a line comment goes on after a backslash-newline

Its second line was taken for code.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index cc604ef..bc7c161 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -806,7 +806,8 @@ class CParser(object):
         Operates in memory, does not alter the original files.
 
         """
-        text = self.files[path]
+        # Lines split by \\n are joined first, a comment may be split as well
+        text = self.files[path].replace("\\\n", "")
         cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
         comment_remover = (
-- 
2.43.0


From 0ffaaf589dcf498c0adf5f3dfd4ad2582a9cbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 19/84] fix: a block comment separates the tokens around it

'int/**/x;' became 'intx;'.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index bc7c161..9298a21 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -810,8 +810,11 @@ class CParser(object):
         text = self.files[path].replace("\\\n", "")
         cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
+        # a block comment counts as a space
         comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
+            quotedString
+            | cStyleComment.copy().setParseAction(lambda: " ")
+            | cplusplus_line_comment.suppress()
         )
         self.files[path] = comment_remover.transformString(text)
 
-- 
2.43.0


From 423fcc40dfcc6581830298129f4e8f47a5f861c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 20/84] fix: building an array type leaves its definition alone

Dimensions were appended to those of the header definition, so the second
use of a multi-dimensional type gave another type.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..3404bb8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,7 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From 648e108e616ad8b6ff59f211504b131756994441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 21/84] fix: order of the dimensions of an array of a typedef'd
 array

After 'typedef int row[6]; row x[5];' x was resolved to int[6][5].
---
 pyclibrary/c_parser.py | 49 +++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9298a21..6302a9e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -60,6 +60,42 @@ logger = logging.getLogger(__name__)
 __all__ = ["CParser", "win_defs"]
 
 
+def join_declarators(inner, inner_quals, outer, outer_quals):
+    """Derive further from an already derived type.
+
+    Consecutive dimensions are given from the outermost to the innermost, hence
+    the first dimensions in outer precede the last ones in inner.
+
+    Parameters
+    ----------
+    inner, outer : sequence
+        Declarators of the type to start from and the ones to apply to it.
+
+    inner_quals, outer_quals : sequence of tuple of str
+        Type qualifiers (for the base type, and for each declarator).
+
+    Returns
+    -------
+    declarators : tuple
+
+    quals : tuple of tuple of str
+
+    """
+    quals = [*inner_quals[:-1], inner_quals[-1] + outer_quals[0]]
+    base, inner = quals[0], list(zip(inner, quals[1:]))
+    outer = list(zip(outer, outer_quals[1:]))
+
+    pos = len(inner)
+    while pos > 0 and isinstance(inner[pos - 1][0], list):
+        pos -= 1
+    end = 0
+    while end < len(outer) and isinstance(outer[end][0], list):
+        end += 1
+
+    joined = inner[:pos] + outer[:end] + inner[pos:] + outer[end:]
+    return tuple(d for d, _ in joined), (base, *(q for _, q in joined))
+
+
 class Type(tuple):
     """
     Representation of a C type. CParser uses this class to store the parsed
@@ -201,17 +237,10 @@ class Type(tuple):
             raise DefinitionError(m.format(parent, " -> ".join(used)))
 
         pt = type_map[parent]
-        evaled_type = Type(
-            pt.type_spec,
-            *(pt.declarators + self.declarators),
-            type_quals=(
-                (
-                    *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
-                    *self.type_quals[1:],
-                )
-            ),
+        declarators, quals = join_declarators(
+            pt.declarators, pt.type_quals, self.declarators, self.type_quals
         )
+        evaled_type = Type(pt.type_spec, *declarators, type_quals=quals)
 
         return evaled_type.eval(type_map, used)
 
-- 
2.43.0


From 18ea901e9fa57bdbf2ef607c9078d3adcdeb72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 22/84] fix: order of the dimensions around parentheses

'int (x[5])[6];' was reported as int[6][5].
---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6302a9e..a5462e2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1492,8 +1492,8 @@ class CParser(object):
             (n, t, q) = self.process_declarator(decl["center"][0])
             if n is not None:
                 name = n
-            toks.extend(t)
-            quals = [*quals[:-1], quals[-1] + q[0], *list(q[1:])]
+            toks, quals = join_declarators(toks, quals, t, q)
+            toks = list(toks)
 
         if "name" in decl:
             name = decl["name"]
-- 
2.43.0


From 1603022d9a494800bf37c179b01cc71029eac1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 23/84] fix: bit-fields of bound structs have their width

The default value of the member was used instead, and an unnamed bit-field
was taken for an anonymous aggregate.
---
 pyclibrary/backends/ctypes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3404bb8..9e5543d 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -326,9 +326,11 @@ class CTypesCLibrary(CLibrary):
                     while True:
                         name = "anon_member%d" % c
                         if name not in members:
+                            # Unnamed bit-fields are mere padding
+                            if len(d) < 4:
+                                anon.append(name)
                             d = (name, *d[1:])
                             defs[i] = d
-                            anon.append(name)
                             break
                         c += 1
                 members.append(d[0])
@@ -339,8 +341,8 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             s._fields_ = [
                 (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
+                if len(m) < 4
+                else (m[0], self._get_type(m[1]), m[3])
                 for m in defs
             ]
             s._defaults_ = [m[2] for m in defs]
-- 
2.43.0


From 332eb6a35c12520f4d58ea7bf43ec3afa4916085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:58 +0000
Subject: [PATCH 24/84] fix: every spelling of the integer types can be bound

The specifiers had to come in one of a few orders, 'signed' alone was
resolved to the empty name and 'signed char' was bound to char.
---
 pyclibrary/backends/ctypes.py | 13 +++++++++++++
 pyclibrary/c_parser.py        |  8 ++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 9e5543d..b825442 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -21,6 +21,7 @@ from ctypes import (
     Structure,
     Union,
     c_bool,
+    c_byte,
     c_char,
     c_char_p,
     c_double,
@@ -71,6 +72,15 @@ def make_mess(mess):
     return cleandoc(mess).replace("\n", " ")
 
 
+def order_specifiers(name):
+    """Put the specifiers of an arithmetic type in the order used in _types_."""
+    order = ["unsigned", "signed", "short", "long", "int", "char", "double"]
+    words = name.split()
+    if all(w in order for w in words):
+        words.sort(key=order.index)
+    return " ".join(words)
+
+
 class CTypesCLibrary(CLibrary):
     """The CLibrary class is intended to automate much of the work in using
     ctypes by integrating header file definitions from CParser.
@@ -181,6 +191,8 @@ class CTypesCLibrary(CLibrary):
         try:
             typ = list(self._headers_.eval_type(typ))
             mods = typ[1:][:]
+            if typ[0] not in self._types_:
+                typ[0] = order_specifiers(typ[0])
 
             # Create the initial type
             # Some types like ['char', '*'] have a specific ctype (c_char_p)
@@ -408,6 +420,7 @@ def init_clibrary(extra_types={}):
         "char": c_char,
         "wchar": c_wchar,
         "wchar_t": c_wchar,
+        "signed char": c_byte,
         "unsigned char": c_ubyte,
         "short": c_short,
         "short int": c_short,
diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a5462e2..afea0d9 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -219,9 +219,13 @@ class Type(tuple):
         used = used or []
 
         if self.is_fund_type():
-            # Remove 'signed' before returning evaluated type
+            # Remove 'signed' before returning evaluated type (but signed char
+            # is not char)
+            words = self.type_spec.split()
+            if "char" not in words:
+                words = [w for w in words if w != "signed"] or ["int"]
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                " ".join(words),
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From e7a8089eb13dba9064a83369efc4e8554edc9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 25/84] fix: a struct with a field named value is returned as
 it is

Only that field was returned.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index b825442..6975cea 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -175,7 +175,7 @@ class CTypesCLibrary(CLibrary):
         it wrong (a pointer being often an array).
 
         """
-        if not hasattr(obj, "value"):
+        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
             return obj
 
         return obj.value
-- 
2.43.0


From 877ceb6fb74f88f43f2b39d187ec863f9a0c9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 26/84] fix: bind function pointers without parameters

'(void)' was taken for a parameter.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 6975cea..4dd1be7 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -291,7 +291,7 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
                     cls = mkfn(cls, *args)
 
                 else:
-- 
2.43.0


From 8625b08e533d329ebac7e0d14c3ec2765df0c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 27/84] fix: functions with an explicit calling convention

The convention was removed from a tuple as if it were a list.
---
 pyclibrary/c_library.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..f37522a 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -18,7 +18,7 @@ from inspect import cleandoc
 from threading import RLock
 from weakref import WeakValueDictionary
 
-from .c_parser import CParser
+from .c_parser import CParser, Type
 from .utils import LibraryPath, find_library
 
 logger = logging.getLogger(__name__)
@@ -407,9 +407,9 @@ class CFunction(object):
 
         # remove void args from list
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
-        for conv in ["__stdcall", "__cdecl"]:
-            if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+        convs = ["__stdcall", "__cdecl"]
+        if any(c in self.sig[0] for c in convs):
+            self.sig[0] = Type(*[d for d in self.sig[0] if d not in convs])
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From 73e991e6d459affc712df5e020f1a57ef3c9bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 28/84] fix: locked calls use the lock of the library

A library opened with lock_calls could not be called at all.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index f37522a..1289ee5 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From 373ae5038962fb68bfaff1f062753440bed1500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 29/84] fix: a name and its short form give the same object

The access by the short form failed once the object had been built, or
built it a second time.
---
 pyclibrary/c_library.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 1289ee5..0685f1c 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -262,11 +262,6 @@ class CLibrary(object, metaclass=CLibraryMeta):
     def _make_obj_(self, typ, name):
         """Build the correct C-like object from the header definitions."""
         names = self._all_names_(name)
-        objs = self._objs_[typ]
-
-        for n in names:
-            if n in objs:
-                return self.objs[n]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
@@ -274,6 +269,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
             ):
                 continue
 
+            if n != name:
+                return self(typ, n)
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From 82cfffb28882ff3965de4c07fec5e3f1e5b8cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 30/84] fix: a struct and its aliases are one class

Looking a struct up through a typedef built another class.
---
 pyclibrary/backends/ctypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 4dd1be7..f24bcc1 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -304,9 +304,8 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name):
+        str_name = self._resolve_struct_alias(str_type, str_name)
         if str_name not in self._structs_:
-            str_name = self._resolve_struct_alias(str_type, str_name)
-
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
-- 
2.43.0


From 75ba1fe0074af66ab12cf127899507a83a2b2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 31/84] fix: one binding for a library reached through symbolic
 links

Only paths were resolved, not libraries given by name or as objects.
---
 pyclibrary/c_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 0685f1c..37012de 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -55,7 +55,7 @@ class CLibraryMeta(type):
         # Identify the library path.
         if isinstance(lib, str):
             if os.sep not in lib:
-                lib_path = find_library(lib).path
+                lib_path = os.path.realpath(find_library(lib).path)
             else:
                 lib_path = os.path.realpath(lib)
                 assert os.path.isfile(lib_path), (
@@ -73,7 +73,7 @@ class CLibraryMeta(type):
 
             backend = identify_library(lib)
             backend_cls = cls.backends[backend]
-            lib_path = get_library_path(lib, backend)
+            lib_path = os.path.realpath(get_library_path(lib, backend))
 
         # Check whether or not this library has already been opened.
         if lib_path in cls.libs:
-- 
2.43.0


From 9edb4d7ea726b1fef0b443857b25647c6d5e9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:35 +0000
Subject: [PATCH 32/84] fix: a struct that cannot be built stays so

The second access returned the incomplete class.
---
 pyclibrary/backends/ctypes.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index f24bcc1..67cf21d 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -323,6 +323,7 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
+            built = self._structs_.copy()
             self._structs_[str_name] = s
 
             if defn["pack"] is not None:
@@ -350,12 +351,17 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if len(m) < 4
-                else (m[0], self._get_type(m[1]), m[3])
-                for m in defs
-            ]
+            try:
+                s._fields_ = [
+                    (m[0], self._get_type(m[1]))
+                    if len(m) < 4
+                    else (m[0], self._get_type(m[1]), m[3])
+                    for m in defs
+                ]
+            except Exception:
+                # Forget this class and those built meanwhile as they may use it
+                self._structs_ = built
+                raise
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From 26a68542ced4fb998854f857749169ffe551b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 33/84] fix: searching for a file leaves the list of the caller
 alone

The registered directories were appended to it.
---
 pyclibrary/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..33a3aab 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -68,7 +68,7 @@ def find_header(h_name, dirs=None):
 
     """
     if dirs:
-        dirs += HEADER_DIRS[::-1]
+        dirs = list(dirs) + HEADER_DIRS[::-1]
     else:
         dirs = HEADER_DIRS[::-1]
 
@@ -135,7 +135,7 @@ def find_library(name, dirs=None):
 
     """
     if dirs:
-        dirs += LIBRARY_DIRS[::-1]
+        dirs = list(dirs) + LIBRARY_DIRS[::-1]
     else:
         dirs = LIBRARY_DIRS[::-1]
 
-- 
2.43.0


From 04e6ca9cbf27cc0958fe30cb14c218b89d0f247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 34/84] fix: look for headers in the system locations on Linux

sys.platform has been 'linux' since Python 3.3.
---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 33a3aab..4722924 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -85,7 +85,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
-- 
2.43.0


From 0cf25ef90c347a92e2d4f8dcc0971f93414e6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 35/84] fix: initialising leaves the containers of the caller
 alone

Types and modifiers were added to them, as well as to the default argument
of init_clibrary.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 pyclibrary/init.py            | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 67cf21d..b793e59 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -418,7 +418,8 @@ if sys.platform == "win32":
     }
 
 
-def init_clibrary(extra_types={}):
+def init_clibrary(extra_types=None):
+    extra_types = dict(extra_types or {})
     # First load all standard types
     CTypesCLibrary._types_ = {
         "bool": c_bool,
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..3dd52c7 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From c6570a287a69ae2cf445f2a873c722861f022764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:42 +0000
Subject: [PATCH 36/84] fix: the architecture of a library does not depend on
 its path

The output of file was searched including the name of the file, could not
be decoded for some names and did not follow links.
---
 pyclibrary/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 4722924..d17412b 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -207,8 +207,9 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    out = check_output(["file", filename], stderr=subprocess.STDOUT)
-    out = out.decode("ascii")
+    cmd = ["file", "-b", "-L", "--", filename]
+    out = check_output(cmd, stderr=subprocess.STDOUT)
+    out = out.decode("ascii", "replace")
     ret = []
     if this_platform.startswith("linux"):
         if "32-bit" in out:
-- 
2.43.0


From a2775aab5db46021de8024bf3240a943c132ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 37/84] fix: an omitted char * argument is generated

A char ** was, which the function refused.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index b793e59..b37520c 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -373,7 +373,7 @@ class CTypesCLibrary(CLibrary):
         arg_type_list = list(arg_type)
         cls = self._get_type(sig, pointers=False)
         special_pointer_types = {None: c_void_p, c_char: c_char_p, c_wchar: c_wchar_p}
-        if cls in special_pointer_types:
+        if cls in special_pointer_types and (cls is None or len(arg_type) > 2):
             cls = special_pointer_types[cls]
             del arg_type_list[1]
         for pointer_decl in arg_type_list[1:-1]:
-- 
2.43.0


From ea9ad281653c34b23f397794ec1226a4c5dc7969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 38/84] fix: remove_compatibility_hack keeps the qualifiers

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index afea0d9..f2cedf7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -275,7 +275,8 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            quals = (*self[0].type_quals, *self.type_quals[1:])
+            return Type(*self[0], self[1], type_quals=quals)
         else:
             return self
 
-- 
2.43.0


From 9acc531fa6f0cdb264365c0761e81e2000c5a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 39/84] fix: several threads may open a library and use it for
 the first time

They could get distinct bindings, distinct objects for one name, or structs
without their fields.
---
 pyclibrary/backends/ctypes.py |  4 ++++
 pyclibrary/c_library.py       | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index b37520c..41fc383 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -304,6 +304,10 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name):
+        with self._build_lock_:
+            return self._build_struct(str_type, str_name)
+
+    def _build_struct(self, str_type, str_name):
         str_name = self._resolve_struct_alias(str_type, str_name)
         if str_name not in self._structs_:
             # Pull struct definition
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 37012de..c3c27ea 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -36,6 +36,7 @@ class CLibraryMeta(type):
 
     backends: dict[str, type["CLibrary"]] = {}
     libs: WeakValueDictionary[str, "CLibrary"] = WeakValueDictionary()
+    libs_lock = RLock()
 
     def __new__(meta, name, bases, dct):
         if name == "CLibrary":
@@ -76,12 +77,11 @@ class CLibraryMeta(type):
             lib_path = os.path.realpath(get_library_path(lib, backend))
 
         # Check whether or not this library has already been opened.
-        if lib_path in cls.libs:
-            return cls.libs[lib_path]
-
-        else:
-            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
-            cls.libs[lib_path] = obj
+        with cls.libs_lock:
+            obj = cls.libs.get(lib_path)
+            if obj is None:
+                obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
+                cls.libs[lib_path] = obj
             return obj
 
 
@@ -199,6 +199,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
         if lock_calls:
             self._lock_ = RLock()
 
+        # Held while building objects
+        self._build_lock_ = RLock()
         self._objs_ = {}
         for k in ["values", "functions", "types", "structs", "unions", "enums"]:
             self._objs_[k] = {}
@@ -211,10 +213,11 @@ class CLibrary(object, metaclass=CLibraryMeta):
             typs = self._objs_.keys()
             raise KeyError("Type must be one of {}".format(typs))
 
-        if name not in self._objs_[typ]:
-            self._objs_[typ][name] = self._make_obj_(typ, name)
+        with self._build_lock_:
+            if name not in self._objs_[typ]:
+                self._objs_[typ][name] = self._make_obj_(typ, name)
 
-        return self._objs_[typ][name]
+            return self._objs_[typ][name]
 
     def __getattr__(self, name):
         """Used to retrieve any type of definition from the headers.
-- 
2.43.0


From 08ea72d50d260243da24ef2df39349d53527e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 40/84] fix: a cache can be used without the headers

Searching a missing header failed before the cache was considered (so did
win_defs), and such a header was not part of the options the cache is
checked against. Without a cache the failure is reported by process_all.
---
 pyclibrary/c_parser.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f2cedf7..4d4d6de 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -753,10 +753,11 @@ class CParser(object):
             if os.path.isfile(header):
                 hs.append(header)
             else:
-                h = find_header(header)
-                if not h:
-                    raise OSError("Cannot find header: {}".format(header))
-                hs.append(h)
+                try:
+                    hs.append(find_header(header))
+                except OSError:
+                    # Not fatal if there is a cache, see process_all.
+                    hs.append(header)
 
         return hs
 
@@ -781,6 +782,13 @@ class CParser(object):
         if encoding is None:
             encoding = self.default_encoding
 
+        self.file_order.append(path)
+        bn = os.path.basename(path)
+        self.init_opts["replace"][bn] = replace
+        # Only interested in the file names, the directory may change between
+        # systems.
+        self.init_opts["files"].append(bn)
+
         if not os.path.isfile(path):
             # Not a fatal error since we might be able to function properly if
             # there is a cache file.
@@ -796,12 +804,6 @@ class CParser(object):
             for s in replace:
                 self.files[path] = re.sub(s, replace[s], self.files[path])
 
-        self.file_order.append(path)
-        bn = os.path.basename(path)
-        self.init_opts["replace"][bn] = replace
-        # Only interested in the file names, the directory may change between
-        # systems.
-        self.init_opts["files"].append(bn)
         return True
 
     def _format_parsed_file(self, filename=None):
@@ -1813,7 +1815,7 @@ class CParser(object):
         """Search all file strings for text, return matching lines."""
         res = []
         for f in self.files:
-            lines = self.files[f].split("\n")
+            lines = (self.files[f] or "").split("\n")
             for i, line in enumerate(lines):
                 if text in line:
                     res.append((f, i, line))
-- 
2.43.0


From a84a3aeb03c4d5fd35044d6cc988158d17f5452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 41/84] fix: a cache restores all definitions, and nothing else

Macros undefined by the headers came back when they had been given to the
parser or imported, and of several definitions of a name another one than
the last could win.
---
 pyclibrary/c_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4d4d6de..4923cf0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -715,7 +715,13 @@ class CParser(object):
                     return False
 
             # Import all parse results
-            self.import_dict(cache["file_defs"])
+            if check_validity and "defs" in cache:
+                # The options are the same, hence those are all the definitions
+                self.file_defs = cache["file_defs"]
+                for k in self.data_list:
+                    self.defs[k] = cache["defs"][k]
+            else:
+                self.import_dict(cache["file_defs"])
             return True
 
         except Exception:
@@ -740,6 +746,7 @@ class CParser(object):
         cache = {}
         cache["opts"] = self.init_opts
         cache["file_defs"] = self.file_defs
+        cache["defs"] = self.defs
         cache["version"] = self.cache_version
         import pickle
 
-- 
2.43.0


From f7060de5ef7e000d9b4a1ff328430bc10fec569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 42/84] fix: a cache made with other imported definitions or
 encoding is not valid

---
 pyclibrary/c_parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4923cf0..f024d26 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -16,6 +16,7 @@ import logging
 import os
 import re
 import sys
+from copy import deepcopy
 from inspect import cleandoc
 from traceback import format_exc
 
@@ -567,11 +568,13 @@ class CParser(object):
                 self.add_def(t, k, kwargs[t][k])
 
         # Import from other CParsers if specified
+        self.imported_defs = None
         if copy_from is not None:
             if not isinstance(copy_from, (list, tuple)):
                 copy_from = [copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
+            self.imported_defs = deepcopy([p.file_defs for p in copy_from])
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
@@ -709,6 +712,14 @@ class CParser(object):
                     logger.debug("Cache init opts are OK:")
                     logger.debug("{}".format(cache["opts"]))
 
+                if (
+                    cache.get("imported") != self.imported_defs
+                    or cache.get("encoding", "utf-8") != self.default_encoding
+                ):
+                    mess = "Cache file is not valid--other imports or encoding."
+                    logger.debug(mess)
+                    return False
+
                 if cache["version"] < self.cache_version:
                     mess = "Cache file is not valid--cache format has changed."
                     logger.debug(mess)
@@ -747,6 +758,8 @@ class CParser(object):
         cache["opts"] = self.init_opts
         cache["file_defs"] = self.file_defs
         cache["defs"] = self.defs
+        cache["imported"] = self.imported_defs
+        cache["encoding"] = self.default_encoding
         cache["version"] = self.cache_version
         import pickle
 
-- 
2.43.0


From 9ea3b2d3204c2b7d2711d0211b236ffbbd3fce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 43/84] fix: a #define or #undef without a name is ignored

It stopped parsing with an AttributeError, even in a skipped group.
---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f024d26..62f1cd4 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -967,6 +967,9 @@ class CParser(object):
                     match = re.match(
                         r"\s*([a-zA-Z_][a-zA-Z0-9_]*)(\([^)]*\))?(.*)$", rest
                     )
+                    if match is None:
+                        logger.debug("Ignored directive without name: " + line)
+                        continue
                     macroName, macroParams, rest = match.groups("")
 
                 # Expand macros if needed
-- 
2.43.0


From c24e246ccb0a7c09f903a309e0d17e92a35ff40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:30 +0000
Subject: [PATCH 44/84] fix: && and || give 0 or 1 in #if

'#if (A && B) == 1' was false with A and B set to 2.
---
 pyclibrary/c_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 62f1cd4..e55b2cb 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1860,8 +1860,13 @@ def _c_mod(a, b):
     raise TypeError("invalid operands to %")
 
 
-class _CDivision(ast.NodeTransformer):
-    """Give / and % their C meaning."""
+class _CSemantics(ast.NodeTransformer):
+    """Give /, %, and, or their C meaning."""
+
+    def visit_BoolOp(self, node):
+        self.generic_visit(node)
+        negated = ast.UnaryOp(op=ast.Not(), operand=node)
+        return ast.UnaryOp(op=ast.Not(), operand=negated)
 
     def visit_BinOp(self, node):
         self.generic_visit(node)
@@ -1880,7 +1885,7 @@ def c_eval(expr, globals=None, locals=None):
     constants.
 
     """
-    tree = _CDivision().visit(ast.parse(expr.strip(), mode="eval"))
+    tree = _CSemantics().visit(ast.parse(expr.strip(), mode="eval"))
     code = compile(ast.fix_missing_locations(tree), "<C expression>", "eval")
     env = {"__builtins__": {}, "/": _c_div, "%": _c_mod}
     env.update(globals or {})
-- 
2.43.0


From 483a5720ff39dd76bea929f7e6005a6b34b9ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 45/84] fix: a call of a function macro may span several lines

---
 pyclibrary/c_parser.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e55b2cb..5d9691e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -934,6 +934,16 @@ class CParser(object):
                 # Only include if we are inside the correct section of an IF
                 # block
                 if if_true[-1]:
+                    # The call of a function macro may span several lines
+                    j = i + 1
+                    while (
+                        j < len(lines)
+                        and directive.match(lines[j]) is None
+                        and self.has_open_fn_macro(line)
+                    ):
+                        line += " " + lines[j]
+                        lines[j] = ""
+                        j += 1
                     new_line = self.expand_macros(line)
 
             # Macro line
@@ -1210,6 +1220,18 @@ class CParser(object):
         parts.append(line)
         return "".join(parts)
 
+    def has_open_fn_macro(self, line):
+        """Check whether the call of a function macro goes on after a line."""
+        for m in re.finditer(r"{}|\b(\w+)\b".format(literal_re), line):
+            if m.groups()[-1] in self.defs["fnmacros"]:
+                rest = line[m.end() :].lstrip()
+                try:
+                    if not rest or rest[0] == "(":
+                        self.split_fn_macro_args(m.group(), rest)
+                except DefinitionError:
+                    return True
+        return False
+
     def expand_fn_macro(self, name, text, hidden=()):
         """Replace a function macro."""
         # defn looks like ('%s + %s / %s', (0, 0, 1))
-- 
2.43.0


From be7e7d5949b0bc9c0589d60b2362cd2180dfb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 46/84] fix: a struct right before a #pragma pack is not packed
 by it

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5d9691e..9bf409f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1648,7 +1648,8 @@ class CParser(object):
         """Return the structure packing value at the given line number."""
         packing = None
         for p in self.pack_list[self.current_file]:
-            if p[0] <= line:
+            # Lines are counted from 1 and from 0 in the list
+            if p[0] < line:
                 packing = p[1]
             else:
                 break
-- 
2.43.0


From aadeeac25fab42f86bcf6dabd5948a82bbbb0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 47/84] fix: unnamed parameters that are pointers to functions
 or arrays

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9bf409f..6315f94 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1342,8 +1342,8 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                (lparen + ~rparen + self.abstract_declarator + rparen)("center")
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
-- 
2.43.0


From 4b4d43e7759ce7bdd689ffea2e2dd37a4eca8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:57 +0000
Subject: [PATCH 48/84] fix: parameters of the functions unnamed parameters
 point to

---
 pyclibrary/c_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6315f94..15578d8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1351,7 +1351,7 @@ class CParser(object):
                     delimitedList(
                         Group(
                             self.type_spec("type")
-                            + self.abstract_declarator("decl")
+                            + (self.declarator | self.abstract_declarator)("decl")
                             + Optional(
                                 Literal("=").suppress() + expression, default=None
                             )("val")
@@ -1530,7 +1530,9 @@ class CParser(object):
                 toks.append(
                     tuple(
                         [
-                            self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
+                            # Whether a["decl"] holds the declarator or is the
+                            # declarator depends on the depth.
+                            self.process_type(a["type"], a[1]) + ex(a["val"])
                             for a in decl["args"]
                         ]
                     )
-- 
2.43.0


From f70b6496673e39fc61bd75b306e91fd3cab0f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:45 +0000
Subject: [PATCH 49/84] fix: a flexible array member takes no room in a struct

---
 pyclibrary/backends/ctypes.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 41fc383..a60b21f 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -62,6 +62,7 @@ if sys.version_info >= (3, 12):
     from ctypes import c_time_t
 
 from ..c_library import CLibrary
+from ..c_parser import Type
 from ..errors import DefinitionError
 from ..utils import find_library
 
@@ -357,7 +358,7 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             try:
                 s._fields_ = [
-                    (m[0], self._get_type(m[1]))
+                    (m[0], self._get_member_type(m[1]))
                     if len(m) < 4
                     else (m[0], self._get_type(m[1]), m[3])
                     for m in defs
@@ -370,6 +371,21 @@ class CTypesCLibrary(CLibrary):
 
         return self._structs_[str_name]
 
+    def _get_member_type(self, typ):
+        """Return the ctype object for a member of a struct or union.
+
+        Contrary to a variable or parameter a member without dimension is not a
+        pointer but an array of unknown length which takes no room.
+
+        """
+        typ = self._headers_.eval_type(typ)
+        pos = len(typ)
+        while isinstance(typ[pos - 1], list):
+            pos -= 1
+        if pos < len(typ) and typ[pos] == [-1]:
+            typ = Type(*typ[:pos], [0], *typ[pos + 1 :], type_quals=typ.type_quals)
+        return self._get_type(typ)
+
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
         # Must be 2-part type, second part must be '*' or '**'
-- 
2.43.0


From c96e2d521e7131d542c1137380f5c5d768c48f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:26 +0000
Subject: [PATCH 50/84] fix: a malformed cache leaves nothing behind

---
 pyclibrary/c_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 15578d8..5e7f8eb 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -725,14 +725,19 @@ class CParser(object):
                     logger.debug(mess)
                     return False
 
+            # Make sure nothing is missing before importing anything
+            file_defs = {
+                f: {k: dict(data[k]) for k in self.data_list}
+                for f, data in cache["file_defs"].items()
+            }
+
             # Import all parse results
             if check_validity and "defs" in cache:
                 # The options are the same, hence those are all the definitions
-                self.file_defs = cache["file_defs"]
-                for k in self.data_list:
-                    self.defs[k] = cache["defs"][k]
+                self.defs.update({k: dict(cache["defs"][k]) for k in self.data_list})
+                self.file_defs = file_defs
             else:
-                self.import_dict(cache["file_defs"])
+                self.import_dict(file_defs)
             return True
 
         except Exception:
-- 
2.43.0


From fe1e53fa55e3e201ed6644c5b7a19bc6cf01621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 51/84] fix: structs that embed each other by way of a pointer

---
 pyclibrary/backends/ctypes.py | 60 +++++++++++++++++++++++------------
 pyclibrary/c_library.py       |  2 ++
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index a60b21f..ebfda05 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -212,10 +212,14 @@ class CTypesCLibrary(CLibrary):
                 cls = self._types_[typ[0]]
 
             # structs, unions, enums:
-            elif typ[0][:7] == "struct ":
-                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
-            elif typ[0][:6] == "union ":
-                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
+            elif typ[0][:7] == "struct " or typ[0][:6] == "union ":
+                str_type = typ[0].split(" ")[0] + "s"
+                str_name = self._defs_["types"][typ[0]][1]
+                # The members do not matter (yet) to what merely points to it
+                finish = not pointers or all(
+                    isinstance(m, list) and -1 not in m for m in mods
+                )
+                cls = self._get_struct(str_type, str_name, finish)
             elif typ[0][:5] == "enum ":
                 cls = c_int
 
@@ -304,18 +308,34 @@ class CTypesCLibrary(CLibrary):
             logger.error("Error while processing type: {}".format(typ))
             raise
 
-    def _get_struct(self, str_type, str_name):
+    def _get_struct(self, str_type, str_name, finish=True):
         with self._build_lock_:
-            return self._build_struct(str_type, str_name)
+            if self._unfinished_ is not None:
+                return self._build_struct(str_type, str_name, finish)
 
-    def _build_struct(self, str_type, str_name):
+            built = self._structs_.copy()
+            self._unfinished_ = {}
+            try:
+                cls = self._build_struct(str_type, str_name)
+                # Now turn to the structs it only refers to
+                while self._unfinished_:
+                    name = next(iter(self._unfinished_))
+                    self._build_struct(self._unfinished_[name], name)
+                return cls
+            except Exception:
+                # Forget this class and those built meanwhile as they may use it
+                self._structs_ = built
+                raise
+            finally:
+                self._unfinished_ = None
+
+    def _build_struct(self, str_type, str_name, finish=True):
         str_name = self._resolve_struct_alias(str_type, str_name)
         if str_name not in self._structs_:
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
             # create ctypes class
-            defs = defn["members"][:]
             if str_type == "structs":
 
                 class s(Structure):
@@ -328,12 +348,17 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
-            built = self._structs_.copy()
             self._structs_[str_name] = s
+            self._unfinished_[str_name] = str_type
 
             if defn["pack"] is not None:
                 s._pack_ = defn["pack"]
 
+        if finish and str_name in self._unfinished_:
+            s = self._structs_[str_name]
+            del self._unfinished_[str_name]
+            defs = self._defs_[str_type][str_name]["members"][:]
+
             # Assign names to anonymous members
             members = []
             anon = []
@@ -356,17 +381,12 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            try:
-                s._fields_ = [
-                    (m[0], self._get_member_type(m[1]))
-                    if len(m) < 4
-                    else (m[0], self._get_type(m[1]), m[3])
-                    for m in defs
-                ]
-            except Exception:
-                # Forget this class and those built meanwhile as they may use it
-                self._structs_ = built
-                raise
+            s._fields_ = [
+                (m[0], self._get_member_type(m[1]))
+                if len(m) < 4
+                else (m[0], self._get_type(m[1]), m[3])
+                for m in defs
+            ]
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c3c27ea..a870230 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -206,6 +206,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
             self._objs_[k] = {}
         self._all_objs_ = {}
         self._structs_ = {}
+        # Structs whose members are not known yet, None unless building structs
+        self._unfinished_ = None
         self._unions_ = {}
 
     def __call__(self, typ, name):
-- 
2.43.0


From 4c427b3ea6942796f3ce33c1ae9983447dcd5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:53 +0000
Subject: [PATCH 52/84] fix: look up the types named struct S and the like

---
 pyclibrary/c_library.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index a870230..7efb12a 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -282,8 +282,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
             elif typ == "functions":
                 return self._get_function(n)
             elif typ == "types":
-                obj = self._defs_[typ][n]
-                return self._get_type(obj)
+                return self._get_type(Type(n))
             elif typ == "structs":
                 return self._get_struct("structs", n)
             elif typ == "unions":
-- 
2.43.0


From 1b6c3fc06f1abfae665ce7dc67c16f5dd1dce9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:08 +0000
Subject: [PATCH 53/84] fix: an alias of a union is no struct, whatever was
 built before

---
 pyclibrary/c_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 7efb12a..1371a0b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -385,7 +385,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
                 raise KeyError(mess.format(str_name))
 
             typ = self._headers_.eval_type([str_name])[0]
-            if typ[:7] != "struct " and typ[:6] != "union ":
+            # str_type is either structs or unions
+            if not typ.startswith(str_type[:-1] + " "):
                 mess = 'No struct/union named "{}"'
                 raise KeyError(mess.format(str_name))
 
-- 
2.43.0


From cbd2e0160735506030d549c15f51f8b8ab84380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:03 +0000
Subject: [PATCH 54/84] fix: arrays and functions as parameters are pointers

---
 pyclibrary/backends/ctypes.py |  4 +++-
 pyclibrary/c_library.py       | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index ebfda05..a61765f 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -296,7 +296,9 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
+                    args = [
+                        self._get_param_type(arg[1]) for arg in m if arg[1] != ("void",)
+                    ]
                     cls = mkfn(cls, *args)
 
                 else:
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 1371a0b..cbe3e98 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -365,6 +365,24 @@ class CLibrary(object, metaclass=CLibraryMeta):
         """
         raise NotImplementedError()
 
+    def _get_param_type(self, typ):
+        """Return an object representing the type of a parameter.
+
+        Parameters declared as arrays or functions are pointers.
+
+        """
+        typ = self._headers_.eval_type(typ)
+        pos = len(typ)
+        while isinstance(typ[pos - 1], list):
+            pos -= 1
+        dims = [d for m in typ[pos:] for d in m]
+        if dims:
+            inner = [dims[1:]] if dims[1:] else []
+            typ = Type(*typ[:pos], *inner, "*")
+        elif isinstance(typ[-1], tuple):
+            typ = Type(*typ, "*")
+        return self._get_type(typ)
+
     def _get_struct(self, str_type, str_name):
         """Return an object representing the named structure or union."""
         raise NotImplementedError()
@@ -415,7 +433,7 @@ class CFunction(object):
             self.sig[0] = Type(*[d for d in self.sig[0] if d not in convs])
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
-        self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
+        self.arg_types = [lib._get_param_type(s[1]) for s in self.sig[1]]
         self.req_args = [x[0] for x in self.sig[1] if x[2] is None]
         # Mapping from argument names to indices
         self.arg_inds = {s[0]: i for i, s in enumerate(self.sig[1])}
@@ -479,7 +497,7 @@ class CFunction(object):
                         mess = make_mess("""Cannot create NULL for
                                         non-pointer argument type: {}""")
                         raise TypeError(mess.format(arg_type))
-                    arg_list[i] = self.lib._get_type(sig)()
+                    arg_list[i] = self.arg_types[i]()
 
                 else:
                     arg_list[i] = self.lib._get_pointer(arg_type, sig)
-- 
2.43.0


From 70f035d991e3c908f485168d75162ba71fca7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:40 +0000
Subject: [PATCH 55/84] fix: extra modifiers are ignored wherever a qualifier
 may stand

---
 pyclibrary/c_parser.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5e7f8eb..e97f703 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -22,6 +22,7 @@ from traceback import format_exc
 
 # Import parsing elements
 from pyparsing import (
+    Empty,
     Forward,
     Group,
     Keyword,
@@ -1320,8 +1321,10 @@ class CParser(object):
             | self.struct_type
             | self.enum_type
         )
+        tag_modifier = Empty()
         if extra_modifier is not None:
             type_ += extra_modifier
+            tag_modifier = extra_modifier
         type_.setParseAction(recombine)
         self.type_spec = Group(type_qualifier("pre_qual") + type_("name"))
 
@@ -1475,6 +1478,7 @@ class CParser(object):
         )
         self.struct_type << (
             struct_kw("struct_type")
+            + tag_modifier
             + ((Optional(ident)("name") + self.decl_list) | ident("name"))
         )
         self.struct_type.setParseAction(self.process_struct)
@@ -1488,6 +1492,7 @@ class CParser(object):
 
         self.enum_type << (
             Keyword("enum")
+            + tag_modifier
             + (
                 Optional(ident)("name")
                 + lbrace
@@ -2051,6 +2056,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
 
     # Some basic definitions
     extra_type_list = [] if extra_types is None else list(extra_types)
+    extra_modifiers = [] if extra_modifiers is None else list(extra_modifiers)
     base_types = nonnum_types + num_types + extra_type_list
     storage_classes = ["inline", "static", "extern"]
     qualifiers = ["const", "volatile", "restrict", "near", "far"]
@@ -2065,6 +2071,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         *base_types,
         *size_modifiers,
         *sign_modifiers,
+        *extra_modifiers,
     ]
 
     keyword = kwl(keywords)
@@ -2086,20 +2093,24 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + Word(alphanums, alphanums + "_$")
         + WordEnd(wordchars)
     ).setParseAction(lambda t: t[0])
-    type_qualifier = ZeroOrMore(
-        (underscore_2_ident + Optional(nestedExpr())) | kwl(qualifiers)
-    )
+    qualifier = (underscore_2_ident + Optional(nestedExpr())) | kwl(qualifiers)
 
     storage_class_spec = Optional(kwl(storage_classes))
 
     if extra_modifiers:
-        extra_modifier = ZeroOrMore(
-            kwl(extra_modifiers) + Optional(nestedExpr())
-        ).suppress()
+        # What follows in parentheses belongs to it unless it is a declarator
+        modifier = Suppress(
+            kwl(extra_modifiers)
+            + Optional(~(lparen + (oneOf("* &") | kwl(keywords))) + nestedExpr())
+        )
+        extra_modifier = ZeroOrMore(modifier)
+        qualifier = modifier | qualifier
 
     else:
         extra_modifier = None
 
+    type_qualifier = ZeroOrMore(qualifier)
+
     # Language elements
     fund_type = OneOrMore(
         kwl(sign_modifiers + size_modifiers + base_types)
-- 
2.43.0


From edf24b173135e962ee2d01e99e8262457cf21195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 56/84] fix: __int64 can be bound wherever the parser was set
 up for it

---
 pyclibrary/backends/ctypes.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index a61765f..ff5e313 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -452,12 +452,9 @@ class CTypesCLibrary(CLibrary):
         function.func.restype = function.res_type
 
 
+WIN_TYPES = {"__int64": c_longlong, "unsigned __int64": c_ulonglong}
 if sys.platform == "win32":
-    WIN_TYPES = {
-        "__int64": c_longlong,
-        "unsigned __int64": c_ulonglong,
-        "HRESULT": HRESULT,
-    }
+    WIN_TYPES["HRESULT"] = HRESULT
 
 
 def init_clibrary(extra_types=None):
@@ -501,10 +498,11 @@ def init_clibrary(extra_types=None):
         "ssize_t": c_ssize_t,
     }
 
-    if sys.platform == "win32":
-        for k in extra_types:
-            if k in WIN_TYPES:
-                extra_types[k] = WIN_TYPES[k]
+    # Types declared without saying what they are
+    if any(k in WIN_TYPES and t is None for k, t in extra_types.items()):
+        extra_types.update(
+            {k: t for k, t in WIN_TYPES.items() if extra_types.get(k) is None}
+        )
 
     if sys.version_info >= (3, 12):
         extra_types["time_t"] = c_time_t
-- 
2.43.0


From 2f095e8dd5fa2d7f3c9657e55886cb5f21c4d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:16 +0000
Subject: [PATCH 57/84] fix: a cache made under other extra types or modifiers
 is not used

---
 pyclibrary/c_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e97f703..cf5f1e6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -716,8 +716,9 @@ class CParser(object):
                 if (
                     cache.get("imported") != self.imported_defs
                     or cache.get("encoding", "utf-8") != self.default_encoding
+                    or cache.get("extras", ([], [])) != extras
                 ):
-                    mess = "Cache file is not valid--other imports or encoding."
+                    mess = "Cache file is not valid--other imports, encoding or init."
                     logger.debug(mess)
                     return False
 
@@ -766,6 +767,7 @@ class CParser(object):
         cache["defs"] = self.defs
         cache["imported"] = self.imported_defs
         cache["encoding"] = self.default_encoding
+        cache["extras"] = extras
         cache["version"] = self.cache_version
         import pickle
 
@@ -2023,6 +2025,8 @@ storage_class_spec = None
 extra_modifier = None
 fund_type = None
 extra_type_list = []
+#: Types and modifiers declared at the initialisation
+extras = ([], [])
 
 c99_int_types = [
     "int8_t",
@@ -2053,10 +2057,12 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     global type_qualifier, storage_class_spec, extra_modifier
     global fund_type
     global extra_type_list
+    global extras
 
     # Some basic definitions
     extra_type_list = [] if extra_types is None else list(extra_types)
     extra_modifiers = [] if extra_modifiers is None else list(extra_modifiers)
+    extras = (extra_type_list, extra_modifiers)
     base_types = nonnum_types + num_types + extra_type_list
     storage_classes = ["inline", "static", "extern"]
     qualifiers = ["const", "volatile", "restrict", "near", "far"]
-- 
2.43.0


From 17225f5d5232df7a1aab79494c3a6471292251be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:32 +0000
Subject: [PATCH 58/84] fix: threads that make the first parsers at once do not
 disturb each other

---
 pyclibrary/c_parser.py |  8 ++++----
 pyclibrary/init.py     | 28 ++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index cf5f1e6..3ead0d0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -405,9 +405,9 @@ def win_defs(version="1500"):
     ]
     if not CParser._init:
         logger.info("Automatic initialisation : OS is assumed to be win32")
-        from .init import auto_init
+        from .init import ensure_init
 
-        auto_init()
+        ensure_init()
     d = os.path.dirname(__file__)
     p = CParser(
         header_files,
@@ -516,9 +516,9 @@ class CParser(object):
     ):
         if not self._init:
             logger.info("Automatic initialisation based on OS detection")
-            from .init import auto_init
+            from .init import ensure_init
 
-            auto_init()
+            ensure_init()
 
         # Holds all definitions
         self.defs = {}
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index 3dd52c7..2629a31 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -13,12 +13,16 @@ are used to declare additional types and modifiers for the parser.
 """
 
 import sys
+from threading import RLock
 
 from .backends import init_libraries
 from .c_library import CLibrary
 from .c_parser import CParser, _init_cparser
 
 
+_init_lock = RLock()
+
+
 def init(extra_types=None, extra_modifiers=None):
     """Init CParser and CLibrary classes.
 
@@ -30,17 +34,18 @@ def init(extra_types=None, extra_modifiers=None):
         List of modifiers, such as '__stdcall'.
 
     """
-    if CParser._init or CLibrary._init:
-        raise RuntimeError("Can only initialise the parser once")
+    with _init_lock:
+        if CParser._init or CLibrary._init:
+            raise RuntimeError("Can only initialise the parser once")
 
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+        extra_types = extra_types if extra_types else {}
+        extra_modifiers = extra_modifiers if extra_modifiers else []
 
-    _init_cparser(extra_types.keys(), extra_modifiers)
-    init_libraries(extra_types)
+        _init_cparser(extra_types.keys(), extra_modifiers)
+        init_libraries(extra_types)
 
-    CParser._init = True
-    CLibrary._init = True
+        CParser._init = True
+        CLibrary._init = True
 
 
 WIN_TYPES = {"__int64": None}
@@ -79,3 +84,10 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         extra_modifiers += WIN_MODIFIERS
 
     init(extra_types, extra_modifiers)
+
+
+def ensure_init():
+    """Init CParser and CLibrary classes unless this has been done already."""
+    with _init_lock:
+        if not CParser._init:
+            auto_init()
-- 
2.43.0


From 8acdb8c4449638c9671cc542fed849a91db99e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:29 +0000
Subject: [PATCH 59/84] fix: qualifiers such as __declspec(x) are reported as
 text

---
 pyclibrary/c_parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3ead0d0..ef97118 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -22,6 +22,7 @@ from traceback import format_exc
 
 # Import parsing elements
 from pyparsing import (
+    Combine,
     Empty,
     Forward,
     Group,
@@ -47,6 +48,7 @@ from pyparsing import (
     lineno,
     nestedExpr,
     oneOf,
+    originalTextFor,
     quotedString,
     restOfLine,
 )
@@ -2091,15 +2093,15 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
 
     call_conv = Optional(Keyword("__cdecl") | Keyword("__stdcall"))("call_conv")
 
-    # Removes '__name' from all type specs. may cause trouble.
+    # Takes '__name' or '__name(...)' for a qualifier. may cause trouble.
     underscore_2_ident = (
         WordStart(wordchars)
         + ~keyword
-        + "__"
-        + Word(alphanums, alphanums + "_$")
+        + Combine("__" + Word(alphanums, alphanums + "_$"))
         + WordEnd(wordchars)
-    ).setParseAction(lambda t: t[0])
-    qualifier = (underscore_2_ident + Optional(nestedExpr())) | kwl(qualifiers)
+        + Optional(originalTextFor(nestedExpr()))
+    ).setParseAction(lambda t: "".join(t))
+    qualifier = underscore_2_ident | kwl(qualifiers)
 
     storage_class_spec = Optional(kwl(storage_classes))
 
-- 
2.43.0


From b612b74890e96158744a03c8734042594a300e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 60/84] fix: representation of a packed struct without members

---
 pyclibrary/c_parser.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ef97118..03facf3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -309,14 +309,10 @@ class Compound(dict):
         super(Compound, self).__init__({"members": members, "pack": pack})
 
     def __repr__(self):
-        packParam = ", pack=" + repr(self.pack) if self.pack is not None else ""
-        return (
-            type(self).__name__
-            + "("
-            + ", ".join(map(repr, self.members))
-            + packParam
-            + ")"
-        )
+        args = list(map(repr, self.members))
+        if self.pack is not None:
+            args.append("pack=" + repr(self.pack))
+        return type(self).__name__ + "(" + ", ".join(args) + ")"
 
     @property
     def members(self):
-- 
2.43.0


From 3efcac241d6ce9d73e5882c27ef5914d5ab3007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:50 +0000
Subject: [PATCH 61/84] fix: bodies and literals of what cannot be parsed are
 not searched for declarations

---
 pyclibrary/c_parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 03facf3..3ec833d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1300,10 +1300,12 @@ class CParser(object):
 
         parser = self.build_parser()
         if return_unparsed:
-            text = parser.suppress().transformString(self.files[path])
+            scanner = parser.suppress() | self.opaque
+            text = scanner.transformString(self.files[path])
             return re.sub(r"\n\s*\n", "\n", text)
         else:
-            return [x[0] for x in parser.scanString(self.files[path])]
+            scanner = parser | self.opaque.suppress()
+            return [x[0] for x in scanner.scanString(self.files[path]) if len(x[0])]
 
     def build_parser(self):
         """Builds the entire tree of parser elements for the C language (the
@@ -1505,6 +1507,15 @@ class CParser(object):
         self.enum_type.setParseAction(self.process_enum)
         self.enum_decl = self.enum_type + semi
 
+        # What can stand in something that is not understood and does not
+        # declare anything at file level (unlike the inside of extern "C" {}).
+        self.opaque = (
+            Regex(r'\bextern\s*"[^"\n]*"(\s*\{)?')
+            | Regex(r"\bnamespace\b[\w:\s]*\{")
+            | originalTextFor(nestedExpr("{", "}"))
+            | quotedString
+        )
+
         self.parser = self.type_decl | self.variable_decl | self.function_decl
         return self.parser
 
-- 
2.43.0


From 6886cba7d11215455f3a766b7696d69acf87c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 62/84] fix: take the word size of a library from its format,
 not from any text file(1) quotes

---
 pyclibrary/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index d17412b..5bedfb2 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -20,6 +20,7 @@ find_library : Find the path to a shared library from its name.
 import io
 import logging
 import os
+import re
 import struct
 import subprocess
 import sys
@@ -212,10 +213,11 @@ def get_arch(filename):
     out = out.decode("ascii", "replace")
     ret = []
     if this_platform.startswith("linux"):
-        if "32-bit" in out:
-            ret.append(32)
-        if "64-bit" in out:
-            ret.append(64)
+        # The rest of the description may quote the file (its interpreter, the
+        # original name of a compressed one...)
+        elf = re.match("ELF (32|64)-bit", out)
+        if elf:
+            ret.append(int(elf.group(1)))
     elif this_platform == "darwin":
         if "(for architecture i386)" in out:
             ret.append(32)
-- 
2.43.0


From 4e092ddb5ac6962cf8d3867d41bd11a8cca3f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 63/84] fix: types declared at initialisation replace known
 ones

time_t was replaced by c_time_t, the types of Windows by the default ones and
pointers to a redefined char type were still bound as strings.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 pyclibrary/init.py            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index ff5e313..18c0ff5 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -203,6 +203,7 @@ class CTypesCLibrary(CLibrary):
                 and len(typ) > 1
                 and typ[1] == "*"
                 and typ[0] in self._ptr_types_
+                and self._types_.get(typ[0]) in (None, c_char, c_wchar)
             ):
                 cls = self._ptr_types_[typ[0]]
                 mods = typ[2:]
@@ -505,7 +506,7 @@ def init_clibrary(extra_types=None):
         )
 
     if sys.version_info >= (3, 12):
-        extra_types["time_t"] = c_time_t
+        extra_types.setdefault("time_t", c_time_t)
 
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index 2629a31..3fbb13e 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -80,7 +80,7 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
     extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
-        extra_types.update(WIN_TYPES)
+        extra_types = {**WIN_TYPES, **extra_types}
         extra_modifiers += WIN_MODIFIERS
 
     init(extra_types, extra_modifiers)
-- 
2.43.0


From 07b725765e734f435aab64cb595346ac9841cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:36 +0000
Subject: [PATCH 64/84] fix: expanding a macro never merges its text with what
 surrounds it

'T(int)x' gave 'intx' and '-N' '--1' when N is -1, as did the arguments of a
function macro put into its body.
---
 pyclibrary/c_parser.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3ec833d..2d03605 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -18,6 +18,7 @@ import re
 import sys
 from copy import deepcopy
 from inspect import cleandoc
+from string import Formatter
 from traceback import format_exc
 
 # Import parsing elements
@@ -100,6 +101,16 @@ def join_declarators(inner, inner_quals, outer, outer_quals):
     return tuple(d for d, _ in joined), (base, *(q for _, q in joined))
 
 
+def join_tokens(parts):
+    """Join pieces of C code, a space separates those which would merge."""
+    res = ""
+    for part in parts:
+        if re.match(r"\w\w|([-+&|<>])\1|[-+*/%&|^<>=!]=|->|/\*|//", res[-1:] + part[:1]):
+            res += " "
+        res += part
+    return res
+
+
 class Type(tuple):
     """
     Representation of a C type. CParser uses this class to store the parsed
@@ -1224,7 +1235,7 @@ class CParser(object):
                 line = line[start:]
 
         parts.append(line)
-        return "".join(parts)
+        return join_tokens(parts)
 
     def has_open_fn_macro(self, line):
         """Check whether the call of a function macro goes on after a line."""
@@ -1245,7 +1256,13 @@ class CParser(object):
 
         args, end = self.split_fn_macro_args(name, text)
         args = [self.expand_macros(arg, hidden) for arg in args]
-        new_str = defn[0].format(*[args[i] for i in defn[1]])
+        values = [args[i] for i in defn[1]]
+        parts = []
+        for text, field, _, _ in Formatter().parse(defn[0]):
+            parts.append(text)
+            if field is not None:
+                parts.append(values[int(field)] if field else values.pop(0))
+        new_str = join_tokens(parts)
 
         return (new_str, end)
 
-- 
2.43.0


From cf1848ff844db15c41791d3705e0a3e960205f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 65/84] fix: the signature and argument types of a function are
 those of its calls

pretty_signature failed for return types with array or function parts (which
also hid the reason a call had failed), and arg_c_type for parameters declared
as functions; for arrays it did not give the type calls take.
---
 pyclibrary/c_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index cbe3e98..1e461a7 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -537,11 +537,11 @@ class CFunction(object):
         """
         if isinstance(arg, str):
             arg = self.arg_inds[arg]
-        return self.lib._get_type(self.sig[1][arg][1])
+        return self.arg_types[arg]
 
     def pretty_signature(self):
         args = (
-            "".join(self.sig[0]),
+            "".join(str(part) for part in self.sig[0]),
             self.name,
             ", ".join(["{} {}".format(s[1], s[0]) for s in self.sig[1]]),
         )
-- 
2.43.0


From 67627f27aa5434220a619fe36c673c31e5c818f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:11 +0000
Subject: [PATCH 66/84] fix: results of a call can be read from the end

res[-1] gave the pointer made for an omitted argument, not what it points to.
---
 pyclibrary/c_library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 1e461a7..a462ce7 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -603,6 +603,7 @@ class CallResult(object):
 
     def __getitem__(self, n):
         if isinstance(n, int):
+            n = range(len(self.args))[n]
             arg = self.args[n]
         elif isinstance(n, str):
             n = self.find_arg(n)
-- 
2.43.0


From dbbd5f12ebf30fbc3b8082417ee147906e59ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 67/84] fix: read floating constants as C does

Suffixes (1.5f), hexadecimal constants and mantissas of several digits (12.5,
10e3) were not understood: the variables they initialise were reported without
value or not at all.
---
 pyclibrary/c_parser.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2d03605..db892dc 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2026,9 +2026,24 @@ def _c_int_to_python(t):
 c_int = Regex(r"(?<![\w.])(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*(?![\w.])").setParseAction(
     _c_int_to_python
 )
+
+
+def _c_float_to_python(t):
+    """Write a C floating constant the way Python does."""
+    val = t[0]
+    if "x" in val.lower():
+        return repr(float.fromhex(re.sub(r"\s|[fFlL]$", "", val)))
+    return val.rstrip("fFlL")
+
+
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
+floating = Regex(
+    r"[+-]?\s*(?<![\w.])("
+    r"0[xX]([0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)[pP][+-]?\d+"
+    r"|(\d+\.\d*|\.\d+)([eE][+-]?\d+)?|\d+[eE][+-]?\d+"
+    r")[fFlL]?(?![\w.])"
+).setParseAction(_c_float_to_python)
 number = floating | integer
 
 # Miscelaneous
-- 
2.43.0


From e5515f38c70ce41a18f80df65708966a25351a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:46 +0000
Subject: [PATCH 68/84] fix: read string and character literals as C does

Escape sequences C and Python understand differently, prefixed literals and
adjacent literals in initialisers were misread.
---
 pyclibrary/c_parser.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index db892dc..45438e4 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1824,7 +1824,8 @@ class CParser(object):
             .addCondition(lambda t: values.get(t[0]["name"]) is None)
             .suppress()
         )
-        expr = (quotedString | floating | c_int | cast).transformString(expr)
+        literals = literal.copy().setParseAction(_c_literal_to_python)
+        expr = (literals | floating | c_int | cast).transformString(expr)
         if expr == "":
             return None
         return c_eval(expr, *args)
@@ -2007,6 +2008,24 @@ rparen = Literal(")").ignore(quotedString).suppress()
 
 # A string or character literal
 literal_re = r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
+literal = Regex(r"(?:(?<!\w)(?:u8|[LuU]))?" + literal_re)
+
+
+def _c_escape(m):
+    """Return the character an escape sequence stands for."""
+    esc = m.group(1)
+    if esc[0] in "xuU" and len(esc) > 1:
+        return chr(int(esc[1:], 16))
+    elif esc[0] in "01234567":
+        return chr(int(esc, 8))
+    return dict(zip("abefnrtv", "\a\b\x1b\f\n\r\t\v")).get(esc, esc)
+
+
+def _c_literal_to_python(t):
+    """Write a C string or character literal the way Python does."""
+    text = t[0][:-1].partition(t[0][-1])[2]
+    escape = r"\\(x[\da-fA-F]+|u[\da-fA-F]{4}|U[\da-fA-F]{8}|[0-7]{1,3}|.)"
+    return repr(re.sub(escape, _c_escape, text, flags=re.DOTALL))
 
 # Numbers
 int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
@@ -2177,9 +2196,9 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
                 | ident + OneOrMore("[" + expression + "]")
+                | OneOrMore(literal)
                 | ident
                 | number
-                | quotedString
             )
             | ("(" + expression + ")")
         )
@@ -2192,9 +2211,9 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
                 | ident + OneOrMore("[" + expression + "]")
+                | OneOrMore(literal)
                 | ident
                 | number
-                | quotedString
             )
             | ("(" + expression + ")")
         )
-- 
2.43.0


From a015f7a9b018e5caab8defda8b06826f28b606ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:16 +0000
Subject: [PATCH 69/84] fix: character constants are integers in expressions

'a' + 'b' gave 'ab', 'a' * 2 'aa' and an array of 'a' elements was reported
with a size which is no number. A constant which is nothing but a character is
still reported as the character.
---
 pyclibrary/c_parser.py | 46 +++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 45438e4..63db7ee 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1120,7 +1120,8 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            c_int
+            literal.copy().setParseAction(_c_literal_to_python)
+            | c_int
             | Literal("!=")
             | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
@@ -1557,7 +1558,7 @@ class CParser(object):
             quals += map(tuple, decl["ptrs"])
 
         if "arrays" in decl and len(decl["arrays"]) > 0:
-            toks.extend([self.eval_expr(x)] for x in decl["arrays"])
+            toks.extend([self.eval_int(x)] for x in decl["arrays"])
             quals += [()] * len(decl["arrays"])
 
         if "args" in decl and len(decl["args"]) > 0:
@@ -1652,10 +1653,7 @@ class CParser(object):
                 enum = {}
                 for v in t.members:
                     if v.value != "":
-                        i = self.eval_expr(v.value)
-                        if isinstance(i, str):
-                            # Character constant
-                            i = ord(i) if len(i) == 1 else None
+                        i = self.eval_int(v.value)
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
                     if i is not None:
@@ -1742,7 +1740,7 @@ class CParser(object):
                         val = self.eval_expr(d)
                         member = [name, decl, val]
                         if d.bit:
-                            member.append(self.eval_expr(d.bit))
+                            member.append(self.eval_int(d.bit))
                         struct.append(tuple(member))
                         logger.debug(
                             "      {} {} {} {}".format(name, decl, val, d.bit)
@@ -1814,6 +1812,10 @@ class CParser(object):
             logger.debug("    failed eval {} : {}".format(toks, format_exc()))
             return None
 
+    def eval_int(self, expr):
+        """Evaluates the expression of an integer."""
+        return self.eval_expr("+({})".format(expr))
+
     def eval(self, expr, *args):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
@@ -1924,8 +1926,31 @@ def _c_mod(a, b):
     raise TypeError("invalid operands to %")
 
 
+def _is_char(node):
+    """Return True for what stands for a character constant."""
+    return isinstance(node, ast.Attribute) and isinstance(node.value, ast.Constant)
+
+
 class _CSemantics(ast.NodeTransformer):
-    """Give /, %, and, or their C meaning."""
+    """Give /, %, and, or, character constants their C meaning."""
+
+    def visit_Expression(self, node):
+        if not _is_char(node.body):
+            return self.generic_visit(node)
+        node.body = node.body.value
+        return node
+
+    def visit_Attribute(self, node):
+        self.generic_visit(node)
+        if not _is_char(node):
+            return node
+        text = node.value.value
+        if node.attr == "char":
+            # Type char is signed, more than one character make an int
+            num = int.from_bytes(text.encode("latin-1"), "big", signed=len(text) == 1)
+        else:
+            num = ord(text)
+        return ast.Constant(num)
 
     def visit_BoolOp(self, node):
         self.generic_visit(node)
@@ -2025,7 +2050,10 @@ def _c_literal_to_python(t):
     """Write a C string or character literal the way Python does."""
     text = t[0][:-1].partition(t[0][-1])[2]
     escape = r"\\(x[\da-fA-F]+|u[\da-fA-F]{4}|U[\da-fA-F]{8}|[0-7]{1,3}|.)"
-    return repr(re.sub(escape, _c_escape, text, flags=re.DOTALL))
+    res = repr(re.sub(escape, _c_escape, text, flags=re.DOTALL))
+    if t[0][-1] == "'":
+        res += ".char" if t[0][0] == "'" else ".wide_char"
+    return res
 
 # Numbers
 int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
-- 
2.43.0


From 4e623f609261599b5033a006002c43524e796dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 70/84] fix: a wide literal in parentheses is no cast

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 63db7ee..0935e52 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1821,9 +1821,9 @@ class CParser(object):
         expr = expr.strip()
         values = self.defs["values"]
         cast = (
-            (lparen + self.type_spec + self.abstract_declarator + rparen)
+            ("(" + self.type_spec("type") + self.abstract_declarator + ")")
             # A constant in parentheses is no cast
-            .addCondition(lambda t: values.get(t[0]["name"]) is None)
+            .addCondition(lambda t: values.get(t.type["name"]) is None)
             .suppress()
         )
         literals = literal.copy().setParseAction(_c_literal_to_python)
-- 
2.43.0


From c85f467fba9cba595da2980fd7b2a69335d0e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:30 +0000
Subject: [PATCH 71/84] fix: macro names inside numbers and prefixed literals
 are left alone

---
 pyclibrary/c_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0935e52..22d278c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1174,7 +1174,7 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args) or "(?!)"
-        arg_regex = re.compile(r"({})|(\b({})\b)".format(literal_re, args_str))
+        arg_regex = re.compile(r"({})|(\b({})\b)".format(verbatim_re, args_str))
         start = 0
         parts = []
         arg_order = []
@@ -1198,7 +1198,7 @@ class CParser(object):
         listed in hidden.
 
         """
-        reg = re.compile(r"({})|(\b(\w+)\b)".format(literal_re))
+        reg = re.compile(r"({})|(\b(\w+)\b)".format(verbatim_re))
         parts = []
         # The group number to check for macro names
         N = 2
@@ -1240,7 +1240,7 @@ class CParser(object):
 
     def has_open_fn_macro(self, line):
         """Check whether the call of a function macro goes on after a line."""
-        for m in re.finditer(r"{}|\b(\w+)\b".format(literal_re), line):
+        for m in re.finditer(r"{}|\b(\w+)\b".format(verbatim_re), line):
             if m.groups()[-1] in self.defs["fnmacros"]:
                 rest = line[m.end() :].lstrip()
                 try:
@@ -2033,7 +2033,10 @@ rparen = Literal(")").ignore(quotedString).suppress()
 
 # A string or character literal
 literal_re = r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
-literal = Regex(r"(?:(?<!\w)(?:u8|[LuU]))?" + literal_re)
+prefix_re = r"(?:(?<!\w)(?:u8|[LuU]))?"
+literal = Regex(prefix_re + literal_re)
+#: What macros do not reach: literals and numbers
+verbatim_re = prefix_re + literal_re + r"|(?<![\w.])\.?\d(?:[eEpP][+-]|[\w.])*"
 
 
 def _c_escape(m):
-- 
2.43.0


From 1cce45c69591b2b907cf32a16a261309828b2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:17 +0000
Subject: [PATCH 72/84] fix: adjacent literals are never read as a triple
 quoted one

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 22d278c..8ad92d4 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2056,7 +2056,7 @@ def _c_literal_to_python(t):
     res = repr(re.sub(escape, _c_escape, text, flags=re.DOTALL))
     if t[0][-1] == "'":
         res += ".char" if t[0][0] == "'" else ".wide_char"
-    return res
+    return res + " "
 
 # Numbers
 int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
-- 
2.43.0


From c4c4c865c5ce25806817c1ef1c470a64ec323fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 73/84] fix: let C parameters named self be passed by keyword

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index a462ce7..82704a4 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -440,7 +440,7 @@ class CFunction(object):
 
         self.lib._init_function(self)
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         """Invoke the SO or dll function referenced, converting all arguments
         to the correct type.
 
-- 
2.43.0


From 5711ee91befcea026d54b964bb5c341768b38fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 74/84] fix: processing a parser again keeps its definitions

---
 pyclibrary/c_parser.py | 46 +++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8ad92d4..8d01f4d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -554,6 +554,10 @@ class CParser(object):
 
         self.file_order = []
         self.files = {}
+        # Files which have been preprocessed, and files whose definitions are
+        # known (because they were parsed or a cache was loaded).
+        self.preprocessed_files = set()
+        self.known_files = set()
 
         self.default_encoding = encoding
 
@@ -599,6 +603,8 @@ class CParser(object):
         """Remove comments, preprocess, and parse declarations from all files.
 
         This operates in memory, and thus does not alter the original files.
+        Files whose definitions are known already may be processed again, for
+        example to see what could not be parsed: the definitions do not change.
 
         Parameters
         ----------
@@ -623,6 +629,7 @@ class CParser(object):
         ):
             logger.debug("Loaded cached definitions; will skip parsing.")
             # Cached values loaded successfully, nothing left to do here
+            self.known_files.update(self.file_order)
             return
 
         results = []
@@ -637,25 +644,40 @@ class CParser(object):
                 mess = 'Could not find header file "{}" or a cache file.'
                 raise IOError(mess.format(f))
 
+            known = (self.defs, self.file_defs) if f in self.known_files else None
+            if known:
+                self.defs, self.file_defs = deepcopy(known)
+            try:
+                results.append(
+                    self._process_file(f, return_unparsed, print_after_preprocess)
+                )
+            finally:
+                if known:
+                    self.defs, self.file_defs = known
+            self.known_files.add(f)
+
+        if cache is not None:
+            logger.debug("Writing cache file '{}'".format(cache))
+            self.write_cache(cache)
+
+        return results
+
+    def _process_file(self, f, return_unparsed, print_after_preprocess):
+        """Remove comments, preprocess and parse declarations from a file."""
+        if f not in self.preprocessed_files:
             logger.debug("Removing comments from file '{}'...".format(f))
             self.remove_comments(f)
 
             logger.debug("Preprocessing file '{}'...".format(f))
             self.preprocess(f)
+            self.preprocessed_files.add(f)
 
-            if print_after_preprocess:
-                print("===== PREPROCSSED {} =======".format(f))
-                print(self.files[f])
+        if print_after_preprocess:
+            print("===== PREPROCSSED {} =======".format(f))
+            print(self.files[f])
 
-            logger.debug("Parsing definitions in file '{}'...".format(f))
-
-            results.append(self.parse_defs(f, return_unparsed))
-
-        if cache is not None:
-            logger.debug("Writing cache file '{}'".format(cache))
-            self.write_cache(cache)
-
-        return results
+        logger.debug("Parsing definitions in file '{}'...".format(f))
+        return self.parse_defs(f, return_unparsed)
 
     def load_cache(self, cache_file, check_validity=False):
         """Load a cache file.
-- 
2.43.0


From dbb12277bd2076bd40b2ee066ce464cc42e89c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 75/84] fix: conditional directives without #if no longer stop
 the parser

---
 pyclibrary/c_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8d01f4d..0ea4663 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -997,6 +997,10 @@ class CParser(object):
                     d = "if"
                     rest = "!defined " + rest
 
+                if d in ["elif", "else", "endif"] and not if_hit:
+                    logger.debug("Ignored directive without #if: " + line)
+                    continue
+
                 # Evaluate 'defined' operator before expanding macros
                 if d in ["if", "elif"]:
 
-- 
2.43.0


From d5a5ee70eb69bccd44362a021c325f10817e0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 76/84] fix: build_array and cast_to accept Type objects

---
 pyclibrary/backends/ctypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 18c0ff5..4aa83cb 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -426,14 +426,14 @@ class CTypesCLibrary(CLibrary):
     def _cast_to(self, obj, typ):
         """Cast an object to a new type (new type must be a pointer)."""
         if not isinstance(typ, type):
-            typ = self._get_type((typ,))
+            typ = self._get_type(typ if isinstance(typ, Type) else (typ,))
 
         return cast(obj, typ)
 
     def _get_array(self, typ, size, vals):
         """Build an array."""
         if not isinstance(typ, type):
-            typ = self._get_type((typ,))
+            typ = self._get_type(typ if isinstance(typ, Type) else (typ,))
 
         if not isinstance(size, tuple):
             size = (size,)
-- 
2.43.0


From f45467546853143d523d50e454e89ec5e6203169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 77/84] fix: a pointer to a function pointer is bound as a
 pointer

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 4aa83cb..1f17149 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -279,7 +279,7 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From 3763666ab75824492dfb170397e9c2a506e3c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 78/84] fix: ** and endless shifts in expressions no longer
 hang the parser

---
 pyclibrary/c_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0ea4663..331f032 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1952,13 +1952,20 @@ def _c_mod(a, b):
     raise TypeError("invalid operands to %")
 
 
+def _c_lshift(a, b):
+    """Left shift, which C defines for counts below the width of the type only."""
+    if b not in range(128):
+        raise ValueError("invalid shift count")
+    return a << b
+
+
 def _is_char(node):
     """Return True for what stands for a character constant."""
     return isinstance(node, ast.Attribute) and isinstance(node.value, ast.Constant)
 
 
 class _CSemantics(ast.NodeTransformer):
-    """Give /, %, and, or, character constants their C meaning."""
+    """Give /, %, <<, and, or, character constants their C meaning."""
 
     def visit_Expression(self, node):
         if not _is_char(node.body):
@@ -1985,7 +1992,9 @@ class _CSemantics(ast.NodeTransformer):
 
     def visit_BinOp(self, node):
         self.generic_visit(node)
-        fn = {ast.Div: "/", ast.Mod: "%"}.get(type(node.op))
+        if isinstance(node.op, ast.Pow):
+            raise SyntaxError("** is not an operator of C")
+        fn = {ast.Div: "/", ast.Mod: "%", ast.LShift: "<<"}.get(type(node.op))
         if fn is None:
             return node
         # Names which cannot clash with those of C constants
@@ -2002,7 +2011,7 @@ def c_eval(expr, globals=None, locals=None):
     """
     tree = _CSemantics().visit(ast.parse(expr.strip(), mode="eval"))
     code = compile(ast.fix_missing_locations(tree), "<C expression>", "eval")
-    env = {"__builtins__": {}, "/": _c_div, "%": _c_mod}
+    env = {"__builtins__": {}, "/": _c_div, "%": _c_mod, "<<": _c_lshift}
     env.update(globals or {})
     return eval(code, env, locals if locals is not None else {})
 
-- 
2.43.0


From 212d66c1ebdf0e61d581ec26ace2bf95308595e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 79/84] fix: a packing which is no plain number no longer stops
 the parser

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 331f032..a362e51 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1110,7 +1110,7 @@ class CParser(object):
                     for o in opts:
                         if o in ["push", "pop"]:
                             pushpop = o
-                        elif o.isdigit():
+                        elif re.match(r"[0-9]{1,9}$", o):
                             val = int(o)
                         else:
                             id = o
-- 
2.43.0


From 352f92d2815569d560c0c63cc18a79031e2ad5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 80/84] fix: a literal out of range in a condition no longer
 stops the parser

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a362e51..8f53cee 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1154,9 +1154,9 @@ class CParser(object):
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
         )
-        expr2 = macro_diffs.transformString(expr).strip()
-
+        expr2 = None
         try:
+            expr2 = macro_diffs.transformString(expr).strip()
             ev = bool(c_eval(expr2))
         except Exception:
             mess = "Error evaluating preprocessor expression: {} [{}]\n{}"
-- 
2.43.0


From 9f759e54c12d096c2d2dcaff3b3c3eb96648ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 81/84] fix: a byte order mark no longer hides the first
 directive

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8f53cee..318008b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -857,7 +857,8 @@ class CParser(object):
             return False
 
         with open(path, "r", encoding=encoding) as fd:
-            self.files[path] = fd.read()
+            # Editors may store a mark in front of the text
+            self.files[path] = fd.read().removeprefix("\ufeff")
 
         if replace is not None:
             for s in replace:
-- 
2.43.0


From cedc09da832c1c4280cfeea1c25d70c476355577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 82/84] fix: initial types may be given in the documented forms

---
 pyclibrary/c_parser.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 318008b..fb8c9b3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -307,6 +307,21 @@ class Type(tuple):
         return (self.type_spec, *self.declarators)
 
 
+def as_type(typ):
+    """Make a Type of a type spec, alone or followed by declarators or by the
+    number of pointers.
+
+    """
+    if isinstance(typ, Type):
+        return typ
+    if isinstance(typ, str):
+        typ = (typ,)
+    declarators = []
+    for d in typ[1:]:
+        declarators.extend(["*"] * d if isinstance(d, int) else [d])
+    return Type(typ[0], *declarators)
+
+
 class Compound(dict):
     """Base class for representing object using a dict-like interface."""
 
@@ -579,7 +594,8 @@ class CParser(object):
         # Import extra arguments if specified
         for t in kwargs:
             for k in kwargs[t].keys():
-                self.add_def(t, k, kwargs[t][k])
+                val = kwargs[t][k]
+                self.add_def(t, k, as_type(val) if t == "types" else val)
 
         # Import from other CParsers if specified
         self.imported_defs = None
-- 
2.43.0


From 288cc492982fe8e76b3acdcd22429a995bed6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:43 +0000
Subject: [PATCH 83/84] fix: eval_type and is_fund_type take names, tuples and
 Types

---
 pyclibrary/c_parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fb8c9b3..ce9a2d2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1914,7 +1914,7 @@ class CParser(object):
         Type.is_fund_type()**
 
         """
-        return Type(typ).is_fund_type()
+        return as_type(typ).is_fund_type()
 
     def eval_type(self, typ):
         """Evaluate a named type into its fundamental type.
@@ -1923,9 +1923,7 @@ class CParser(object):
         Type.eval()**
 
         """
-        if not isinstance(typ, Type):
-            typ = Type(*typ)
-        return typ.eval(self.defs["types"])
+        return as_type(typ).eval(self.defs["types"])
 
     def find(self, name):
         """Search all definitions for the given name."""
-- 
2.43.0


From a49c80ea73d2e61de774682f109ce6c057016634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 84/84] fix: generate pointers omitted after a parameter with a
 default value

---
 pyclibrary/c_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 82704a4..27b7887 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -452,8 +452,8 @@ class CFunction(object):
         arguments (so that objects passed by reference can be retrieved).
 
         """
-        # We'll need at least this many arguments.
-        arg_list = [None] * max(len(self.req_args), len(args))
+        # One slot per argument: an omitted one may be generated below.
+        arg_list = [None] * max(len(self.sig[1]), len(args))
 
         # First fill in args
         for i in range(len(args)):
-- 
2.43.0

