From e112d625a9bd710766460ca756bd1e85da46c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 001/102] fix: give unions their full size when padding exceeds
 the last member

---
 ctypeslib/codegen/cursorhandler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ce08ebe..d6d4dd2 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -896,6 +896,14 @@ class CursorHandler(ClangHandler):
             offset = member.offset + member.bits
             prev_member = member
         # tail padding if necessary
+        if isinstance(s, typedesc.Union):
+            # all members start at offset 0: the largest one gives the extent,
+            # and the padding member has to span the whole union.
+            offset = max([m.offset + m.bits for m in members], default=0)
+            if s.size * 8 != offset:
+                self._make_padding(members, padding_nb, 0, s.size * 8)
+            s.members = members
+            return
         if s.size * 8 != offset:
             length = s.size * 8 - offset
             log.debug(
-- 
2.43.0


From cfe6ffaa3480274b955091213b0c061a22cb9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 002/102] fix: resolve every __-prefixed type name used inside
 a class body

---
 ctypeslib/codegen/codegenerator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7d9d9fa..04c4847 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -11,6 +11,7 @@ import ctypes
 import logging
 import os
 import pkgutil
+import re
 import sys
 import textwrap
 import io
@@ -715,9 +716,8 @@ class Generator:
             for f in fields:
                 fieldname = unnamed_fields.get(f, f.name)
                 type_name = self.type_name(f.type)
-                # handle "__" prefixed names by using a wrapper
-                if type_name.startswith("__"):
-                    type_name = "globals()['%s']" % type_name
+                # handle "__" prefixed names by using a wrapper, python would mangle them in a class body
+                type_name = re.sub(r"(?<![\w.])(__\w+)", r"globals()['\1']", type_name)
                 # a bitfield needs a triplet
                 if f.is_bitfield is False:
                     print("    ('%s', %s)," % (fieldname, type_name), file=self.stream)
@@ -727,7 +727,7 @@ class Generator:
                     # print fieldname
                     # import code
                     # code.interact(local=locals())
-                    print("    ('%s', %s, %s)," % (fieldname, self.type_name(f.type), f.bits), file=self.stream)
+                    print("    ('%s', %s, %s)," % (fieldname, type_name, f.bits), file=self.stream)
             if inline:
                 print(prefix, end=" ", file=self.stream)
             print("]\n", file=self.stream)
-- 
2.43.0


From 8537a4698cfd123c174726833aafd47ba793a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 003/102] fix: name the type of an unnamed enum declared in a
 record

---
 ctypeslib/codegen/handler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 021247a..2a1d7a4 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -153,6 +153,14 @@ class ClangHandler(object):
                                  CursorKind.CLASS_DECL,CursorKind.FIELD_DECL]:
                 name = self._make_unknown_name(cursor, field_name)
                 log.debug('Unnamed cursor type, got name %s',name)
+            elif cursor.kind == CursorKind.ENUM_DECL:
+                # unnamed enum in a record, same naming scheme as root unnamed enums
+                parent = cursor.semantic_parent.spelling
+                name = 'c__Ea_%s%s' % (
+                    '%s_' % parent if parent.isidentifier() else '',
+                    [c.spelling for c in cursor.get_children()
+                     if c.kind == CursorKind.ENUM_CONSTANT_DECL][0])
+                log.debug('Unnamed enum type, got name %s', name)
             else:
                 log.debug('Unnamed cursor, No idea what to do')
                 #import code
-- 
2.43.0


From 150eb33b3e02b98bace8ee1d7500f713023f8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 004/102] fix: ignore zero-width bit fields, they have no
 storage

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index d6d4dd2..13a3dcc 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -705,6 +705,9 @@ class CursorHandler(ClangHandler):
                   str(['%s/%s' % (f.kind.name, f.spelling) for f in fields]))
         for field in fields:
             log.debug('creating FIELD_DECL for %s/%s', field.kind.name, field.spelling)
+            if field.is_bitfield() and field.get_bitfield_width() == 0:
+                # no storage, it only aligns the next field
+                continue
             members.append(self.FIELD_DECL(field))
         # FIXME BUG clang: anonymous structure field with only one anonymous field
         # is not a FIELD_DECL. does not appear in get_fields() !!!
-- 
2.43.0


From 502c684546f74f7a17d3af6efcf2b52e4a50ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 005/102] fix: use the target pointer size for function
 pointers in cross-arch mode

---
 ctypeslib/codegen/codegenerator.py | 3 +++
 ctypeslib/data/pointer_type.tpl    | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 04c4847..8fe141d 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -145,6 +145,9 @@ class Generator:
             # else:
             return "%s * %s" % (self.type_name(t.typ, generate), t.size)
         if isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.FunctionType):
+            if self.enable_pointer_type() == "POINTER_T":
+                # the target's pointer size applies to function pointers too
+                return "FUNCTION_POINTER_T(%s)" % self.type_name(t.typ, generate)
             return self.type_name(t.typ, generate)
         if isinstance(t, typedesc.PointerType):
             pointer_class = self.enable_pointer_type()
diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 558eecf..ff1f24b 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -1,6 +1,9 @@
 # if local wordsize is same as target, keep ctypes pointer function.
 if ctypes.sizeof(ctypes.c_void_p) == __POINTER_SIZE__:
     POINTER_T = ctypes.POINTER
+    # a ctypes function prototype already is a pointer
+    def FUNCTION_POINTER_T(prototype):
+        return prototype
 else:
     class IncorrectWordSizeError(TypeError):
         pass
@@ -38,3 +41,4 @@ else:
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
         ctypes._pointer_t_type_cache[clsname] = _class
         return _class
+    FUNCTION_POINTER_T = POINTER_T
-- 
2.43.0


From 02904898669ba0ad43e4023414399976ad8abeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 006/102] fix: use emulated pointers when a flag such as -m32
 changes the pointer size

---
 ctypeslib/codegen/codegenerator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 8fe141d..87cf9e1 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -71,8 +71,10 @@ class Generator:
         If a type is a pointer, a platform-independent POINTER_T type needs
         to be in the generated code.
         """
-        # only enable if cross arch mode is on
-        if not self.cross_arch_code_generation:
+        # only enable if cross arch mode is on, or if flags like -m32 change the size of a pointer
+        host_pointer_size = ctypes.sizeof(ctypes.c_void_p)
+        if (not self.cross_arch_code_generation
+                and self.parser.get_ctypes_size(TypeKind.POINTER) // 8 == host_pointer_size):
             return "ctypes.POINTER"
         self.enable_pointer_type = lambda: "POINTER_T"
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
-- 
2.43.0


From 0e0494b46198e441247e80ae17efb7fd5c0fc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 007/102] fix: translate octal, hex float and every suffixed
 number in macros

---
 ctypeslib/codegen/cursorhandler.py |  6 ++----
 ctypeslib/codegen/util.py          | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 13a3dcc..0e9aa7f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -435,12 +435,10 @@ class CursorHandler(ClangHandler):
         elif cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
             c = value[-1]
             if c in ['"', "'"]:
-                value = re.sub('''^L%s''' % c , c, value)
+                value = re.sub('''^(L|u8|u|U)%s''' % c , c, value)
             else:
-                # unsigned int / long int / unsigned long int / long long int / unsigned long long int
                 # this works and doesn't eat STRING values because no '"' is before $ in the regexp.
-                # FIXME combinaisons of u/U, l/L, ll/LL, and combined, plus z/Z combined with u/U
-                value = re.sub("(u|U|l|L|ul|UL|ll|LL|ull|ULL|z|Z|zu|ZU)$", "", value)
+                value = util.from_c_number_literal(value)
             return value
         else:
             pass
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 2f73248..2f08bbc 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -150,6 +150,25 @@ def from_c_float_literal(value):
     return match.group(1)
 
 
+_c_integer_regex = re.compile(r"^(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)[uUlLzZ]*$")
+_c_hex_float_regex = re.compile(r"^(0[xX][0-9a-fA-F.]+[pP][+-]?\d+)[fFlL]?$")
+
+
+def from_c_number_literal(value):
+    """Transforms the spelling of a C number into a python one, without its suffix."""
+    match = _c_integer_regex.match(value)
+    if match:
+        value = match.group(1)
+        if re.match("^0[0-7]+$", value):
+            # octal
+            value = "0o" + value[1:]
+        return value
+    match = _c_hex_float_regex.match(value)
+    if match:
+        return repr(float.fromhex(match.group(1)))
+    return from_c_float_literal(value) or value
+
+
 def contains_undefined_identifier(macro):
     # body is undefined
     if isinstance(macro.body, typedesc.UndefinedIdentifier):
@@ -195,5 +214,6 @@ __all__ = [
     'get_cursors',
     'get_tu',
     'from_c_float_literal',
+    'from_c_number_literal',
     'log_entity'
 ]
-- 
2.43.0


From 0d92988c3db944348265e3f5eb511a0fa5b7a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 008/102] fix: replace a macro name by its tokens, and only if
 it is an object-like macro

---
 ctypeslib/codegen/cursorhandler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 0e9aa7f..aba2e10 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -542,11 +542,16 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if self.is_registered(value):
+                    known = self.get_registered(value) if self.is_registered(value) else None
+                    if isinstance(known, typedesc.Macro) and known.args is None:
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
-                        value = self.get_registered(value).body
+                        value = known.body
                         log.debug("Found MACRO_DEFINITION token identifier : %s", value)
+                        if isinstance(value, list):
+                            # the replacement of a macro is its list of tokens
+                            final_value.extend(value)
+                            continue
                     else:
                         value = typedesc.UndefinedIdentifier(value)
                         log.debug("Undefined MACRO_DEFINITION token identifier : %s", value)
-- 
2.43.0


From 3b66d07a85c5e4862ff7250f78b311f2d19dfedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 009/102] fix: accept macros that negate an unknown identifier

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index aba2e10..fdcb5e4 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1138,7 +1138,7 @@ class CursorHandler(ClangHandler):
             if len(tokens) == 2:
                 # #define key value
                 value = tokens[1]
-            elif len(tokens) == 3 and tokens[1] == '-':
+            elif len(tokens) == 3 and tokens[1] == '-' and isinstance(tokens[2], str):
                 value = ''.join(tokens[1:])
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
-- 
2.43.0


From 6c57660200f3dfb3e4ba5da760085d4b1408f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 010/102] fix: keep the whole expression of a macro that starts
 with a parenthesis

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index fdcb5e4..6c56aaa 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1150,7 +1150,7 @@ class CursorHandler(ClangHandler):
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
                 else:
-                    value = ''.join((str(_) for _ in tokens[1:tokens.index(')') + 1]))
+                    value = ''.join((str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
-- 
2.43.0


From 2bd0616a69911b9b0b25f64ca051fca0b8fca328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 011/102] fix: comment out macros that are not a python value

---
 ctypeslib/codegen/codegenerator.py | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 87cf9e1..7ad4e96 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -219,9 +219,7 @@ class Generator:
             else:  # we assume it's a list
                 print("# %s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
         elif isinstance(macro.body, bool):
-            print("%s = %s # macro" % (macro.name, macro.body), file=self.stream)
-            self.macros += 1
-            self.names.append(macro.name)
+            self._macro_value(macro.name, macro.body)
         elif isinstance(macro.body, str):
             if macro.body == "":
                 print("# %s = %s # macro" % (macro.name, macro.body), file=self.stream)
@@ -232,19 +230,11 @@ class Generator:
                     body = float_value
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
-                if sum(x=='(' for x in body) != sum(x==')' for x in body):
-                    # unbalanced parens means comment
-                    print("# %s = %s # macro" % (macro.name, body), file=self.stream)
-                else:
-                    print("%s = %s # macro" % (macro.name, body), file=self.stream)
-                self.macros += 1
-                self.names.append(macro.name)
+                self._macro_value(macro.name, body)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
-            print("%s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
-            self.macros += 1
-            self.names.append(macro.name)
+            self._macro_value(macro.name, " ".join([str(_) for _ in macro.body]))
         else:
             # this might be a token list of float literal
             body = macro.body
@@ -252,11 +242,21 @@ class Generator:
             if float_value is not None:
                 body = float_value
             # or anything else that might be a valid python literal...
-            print("%s = %s # macro" % (macro.name, body), file=self.stream)
-            self.macros += 1
-            self.names.append(macro.name)
+            self._macro_value(macro.name, body)
         return
 
+    def _macro_value(self, name, body):
+        """Prints a macro as a python value, or comments it out if it is not one."""
+        line = "%s = %s # macro" % (name, body)
+        try:
+            exec(line, {"__builtins__": {}})
+        except Exception:  # pylint: disable=broad-exception-caught
+            print("# %s" % line.replace("\n", " "), file=self.stream)
+            return
+        print(line, file=self.stream)
+        self.macros += 1
+        self.names.append(name)
+
     _typedefs = 0
 
     def Typedef(self, tp):
-- 
2.43.0


From 02f1d4915bb334bc0b30ca24446e809cfe3b97d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 012/102] fix: substitute empty macros and NULL by their C
 meaning in other macros

---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6c56aaa..d35721b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -548,6 +548,12 @@ class CursorHandler(ClangHandler):
                         # parse that, try to see if there is another Macro in there.
                         value = known.body
                         log.debug("Found MACRO_DEFINITION token identifier : %s", value)
+                        if value is True:
+                            # a macro without body is replaced by nothing
+                            continue
+                        if value is None:
+                            # NULL
+                            value = 'None'
                         if isinstance(value, list):
                             # the replacement of a macro is its list of tokens
                             final_value.extend(value)
-- 
2.43.0


From bbc26868c9e9d9b375ec8624086caf431180a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 013/102] fix: give a macro that is an integer expression its
 value

---
 ctypeslib/codegen/codegenerator.py |  3 +++
 ctypeslib/codegen/util.py          | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7ad4e96..0ce2b76 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -241,6 +241,9 @@ class Generator:
             float_value = util.from_c_float_literal(body)
             if float_value is not None:
                 body = float_value
+            elif util.body_is_integer_expression(body):
+                # #define FLAG 1 << 4
+                body = " ".join(body)
             # or anything else that might be a valid python literal...
             self._macro_value(macro.name, body)
         return
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 2f08bbc..a32c532 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -209,6 +209,16 @@ def body_is_all_string_tokens(macro_body):
     return False
 
 
+_integer_expression_regex = re.compile(
+    r"^(?:\s|[-+*&|^~()]|<<|>>|(?:0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|\d+)\b)+$")
+
+
+def body_is_integer_expression(macro_body):
+    """an expression that has the same meaning in python and in C. / and % do not. """
+    return (isinstance(macro_body, list) and all(isinstance(b, str) for b in macro_body)
+            and _integer_expression_regex.match(" ".join(macro_body)) is not None)
+
+
 __all__ = [
     'get_cursor',
     'get_cursors',
-- 
2.43.0


From 4a7472219c0ec514ccde08d261bd8c9c9df2b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 014/102] fix: keep adjacent strings in parentheses apart in
 macros

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index d35721b..e31a0f7 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1156,7 +1156,8 @@ class CursorHandler(ClangHandler):
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
                 else:
-                    value = ''.join((str(_) for _ in tokens[1:]))
+                    # keep adjacent strings apart
+                    value = ' '.join((str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
-- 
2.43.0


From 7e97f8a37de36e1bd086aad99549716e433a9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 015/102] fix: accept macros with an unclosed parenthesis

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e31a0f7..2032fa9 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1149,7 +1149,7 @@ class CursorHandler(ClangHandler):
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
                 # valid tokens for us are are '()[0-9],.e' and terminating LluU
-                if any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens)):
+                if ')' in tokens and any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens)):
                     # function macro or an expression.
                     str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
                     args = ''.join(str_tokens).replace(',', ', ')
-- 
2.43.0


From 8d4632b5ca4316d0d5402dd676b3f47f7fe1bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 016/102] fix: recognise function-like macros whose body has no
 identifier

---
 ctypeslib/codegen/cursorhandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2032fa9..660d3d6 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1149,7 +1149,12 @@ class CursorHandler(ClangHandler):
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
                 # valid tokens for us are are '()[0-9],.e' and terminating LluU
-                if ')' in tokens and any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens)):
+                # the name of a function-like macro is directly followed by its parameters
+                name_token, paren_token = list(cursor.get_tokens())[:2]
+                function_like = (paren_token.spelling == '(' and
+                                 name_token.extent.end.offset == paren_token.extent.start.offset)
+                if ')' in tokens and (function_like or any(
+                        filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens))):
                     # function macro or an expression.
                     str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
                     args = ''.join(str_tokens).replace(',', ', ')
-- 
2.43.0


From d1a289c4c5e79c234cb3e9959cb6235cd1d327d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 017/102] fix: translate every spelling of numbers in variable
 initialisers

---
 ctypeslib/codegen/cursorhandler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 660d3d6..87cd184 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -514,16 +514,17 @@ class CursorHandler(ClangHandler):
             # Cleanup specific c-lang or c++ prefix/suffix for POD types.
             if token.cursor.kind == CursorKind.INTEGER_LITERAL:  # noqa
                 # strip type suffix for constants
-                value = value.replace('L', '').replace('U', '')
-                value = value.replace('l', '').replace('u', '')
+                value = util.from_c_number_literal(value)
                 if value[:2] == '0x' or value[:2] == '0X':
                     value = '0x%s' % value[2:]  # "int(%s,16)"%(value)
+                elif value.startswith('0'):
+                    # octal and binary
+                    value = int(value, 0)
                 else:
                     value = int(value)
             elif token.cursor.kind == CursorKind.FLOATING_LITERAL:  # noqa
                 # strip type suffix for constants
-                value = value.replace('f', '').replace('F', '')
-                value = float(value)
+                value = float(util.from_c_number_literal(value))
             elif (token.cursor.kind == CursorKind.CHARACTER_LITERAL or  # noqa
                           token.cursor.kind == CursorKind.STRING_LITERAL):  # noqa
                 value = self._clean_string_literal(token.cursor, value)
-- 
2.43.0


From 88129ccdfa29e3ef257efb1207a29f1f62e74af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 018/102] fix: accept variables that point to integers

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 0ce2b76..a4b1caf 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -389,7 +389,7 @@ class Generator:
                 # FIXME a char * is not a python string.
                 # we should output a cstring() construct.
                 init_value = repr(tp.init)
-            elif isinstance(tp.typ.typ, typedesc.FundamentalType) and (
+            elif isinstance(tp.typ, typedesc.ArrayType) and isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 "int" in tp.typ.typ.name or "long" in tp.typ.typ.name
             ):
                 # array of number
-- 
2.43.0


From 097505c103ea6645d81fd9ff4378df4270e4b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 019/102] fix: instantiate array variables of records

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index a4b1caf..e175260 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -402,12 +402,12 @@ class Generator:
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
             elif isinstance(tp.typ.typ, typedesc.Structure):
                 self._generate(tp.typ.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = "(%s)()" % self.type_name(tp.typ, False)
             else:
                 if tp.init is not None:
                     init_value = tp.init
                 else:
-                    init_value = self.type_name(tp.typ, False) + "()"
+                    init_value = "(%s)()" % self.type_name(tp.typ, False)
 
         elif isinstance(tp.typ, typedesc.Structure):
             init_value = self.type_name(tp.typ, False)
-- 
2.43.0


From 093ad0ff8026a00a48787ebb1a70b54882fbb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 020/102] fix: compute the value of numeric initialisers that
 are expressions

---
 ctypeslib/codegen/cursorhandler.py | 26 +++++++++++++++++++++++++-
 ctypeslib/codegen/util.py          | 30 ++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 87cd184..afe2757 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -85,10 +85,33 @@ class CursorHandler(ClangHandler):
     @log_entity
     def INIT_LIST_EXPR(self, cursor):  # noqa
         """Returns a list of literal values."""
-        values = [self.parse_cursor(child)
+        values = [self._number_value(child.type, child, self.parse_cursor(child))
                   for child in list(cursor.get_children())]
         return values
 
+    def _number_value(self, _ctype, cursor, value):
+        """Returns the value of an initialiser of a number, when it is an expression and not a literal."""
+        _ctype = _ctype.get_canonical()
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
+            return value
+        if not self.is_fundamental_type(_ctype):
+            return value
+        literal = cursor
+        while literal.kind.is_unexposed() or literal.kind == CursorKind.VAR_DECL:  # noqa
+            # the initialiser is the last child
+            children = [c for c in literal.get_children() if c.kind.is_expression()]
+            if len(children) == 0:
+                return value
+            literal = children[-1]
+        if literal.kind in (CursorKind.INTEGER_LITERAL, CursorKind.STRING_LITERAL):  # noqa
+            return value
+        if literal.kind == CursorKind.CHARACTER_LITERAL and _ctype.kind in (  # noqa
+                TypeKind.CHAR_S, TypeKind.CHAR_U, TypeKind.UCHAR, TypeKind.WCHAR,
+                TypeKind.CHAR16, TypeKind.CHAR32):  # noqa
+            return value
+        number = util.evaluate(cursor)
+        return value if number is None else number
+
     ################################
     # STATEMENTS handlers
 
@@ -339,6 +362,7 @@ class CursorHandler(ClangHandler):
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
                 init_value = init_value[0][1]
+            init_value = self._number_value(_ctype, cursor, init_value)
         return init_value
 
     def _get_var_decl_init_value(self, _ctype, children):
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index a32c532..ee75301 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -2,8 +2,11 @@
 # This file provides common utility functions for the test suite.
 #
 
+import ctypes
+
 from clang.cindex import Cursor
 from clang.cindex import TranslationUnit
+from clang.cindex import conf
 from collections.abc import Iterable
 
 import logging
@@ -169,6 +172,33 @@ def from_c_number_literal(value):
     return from_c_float_literal(value) or value
 
 
+def evaluate(cursor):
+    """Returns the number that libclang computes for an expression or a variable, or None."""
+    lib = conf.lib
+    lib.clang_Cursor_Evaluate.argtypes = [Cursor]
+    lib.clang_Cursor_Evaluate.restype = ctypes.c_void_p
+    for name, restype in (("getKind", ctypes.c_int), ("isUnsignedInt", ctypes.c_uint),
+                          ("getAsUnsigned", ctypes.c_ulonglong), ("getAsLongLong", ctypes.c_longlong),
+                          ("getAsDouble", ctypes.c_double), ("dispose", None)):
+        func = getattr(lib, "clang_EvalResult_" + name)
+        func.argtypes = [ctypes.c_void_p]
+        func.restype = restype
+    result = lib.clang_Cursor_Evaluate(cursor)
+    if not result:
+        return None
+    try:
+        kind = lib.clang_EvalResult_getKind(result)
+        if kind == 1 and lib.clang_EvalResult_isUnsignedInt(result):
+            return lib.clang_EvalResult_getAsUnsigned(result)
+        if kind == 1:
+            return lib.clang_EvalResult_getAsLongLong(result)
+        if kind == 2:
+            return lib.clang_EvalResult_getAsDouble(result)
+        return None
+    finally:
+        lib.clang_EvalResult_dispose(result)
+
+
 def contains_undefined_identifier(macro):
     # body is undefined
     if isinstance(macro.body, typedesc.UndefinedIdentifier):
-- 
2.43.0


From 38cf4b18ca5ce85afd11c0432875d07c287edf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 021/102] fix: accept variables of enumeration types

---
 ctypeslib/codegen/cursorhandler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index afe2757..fc2caaa 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -94,7 +94,7 @@ class CursorHandler(ClangHandler):
         _ctype = _ctype.get_canonical()
         if isinstance(value, (int, float)) and not isinstance(value, bool):
             return value
-        if not self.is_fundamental_type(_ctype):
+        if not self.is_fundamental_type(_ctype) and _ctype.kind != TypeKind.ENUM:  # noqa
             return value
         literal = cursor
         while literal.kind.is_unexposed() or literal.kind == CursorKind.VAR_DECL:  # noqa
@@ -300,7 +300,7 @@ class CursorHandler(ClangHandler):
                 self.get_unique_name(cursor))
             log.error(st)
             raise RuntimeError(st)
-        elif self.is_array_type(_ctype) or _ctype.kind == TypeKind.RECORD:  # noqa
+        elif self.is_array_type(_ctype) or _ctype.kind in (TypeKind.RECORD, TypeKind.ENUM):  # noqa
             _type = self.parse_cursor_type(_ctype)
         elif self.is_pointer_type(_ctype):
             # for example, extern Function pointer
@@ -362,6 +362,9 @@ class CursorHandler(ClangHandler):
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
                 init_value = init_value[0][1]
+            if isinstance(init_value, typedesc.T):
+                # the declaration of the variable's type, not a value
+                init_value = None
             init_value = self._number_value(_ctype, cursor, init_value)
         return init_value
 
-- 
2.43.0


From f83193c068715a7b39709d433d677c71af6c050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 022/102] fix: keep variables that hold an address or a wide
 string importable

---
 ctypeslib/codegen/codegenerator.py | 22 +++++++++++++++++-----
 ctypeslib/codegen/cursorhandler.py |  6 +++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e175260..6251df8 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -395,7 +395,11 @@ class Generator:
                 # array of number
                 # CARE: size of elements must match size of array
                 # init_value = repr(tp.init)
-                init_value = "[%s]" % ",".join([str(x) for x in tp.init])
+                if isinstance(tp.init, str):
+                    # a wide string
+                    init_value = repr(tp.init)
+                else:
+                    init_value = "[%s]" % ",".join([str(x) for x in tp.init])
                 # we do NOT want Variable to be described as ctypes object
                 # when we can have a python abstraction for them.
                 # init_value_type = self.type_name(tp.typ, False)
@@ -403,11 +407,19 @@ class Generator:
             elif isinstance(tp.typ.typ, typedesc.Structure):
                 self._generate(tp.typ.typ)
                 init_value = "(%s)()" % self.type_name(tp.typ, False)
+                if init_value.startswith("(POINTER_T("):
+                    # emulated pointers can not be instantiated
+                    init_value = None
+            elif isinstance(tp.init, str):
+                # a wide string
+                init_value = repr(tp.init)
+            elif tp.init is not None:
+                init_value = tp.init
             else:
-                if tp.init is not None:
-                    init_value = tp.init
-                else:
-                    init_value = "(%s)()" % self.type_name(tp.typ, False)
+                init_value = "(%s)()" % self.type_name(tp.typ, False)
+                if init_value.startswith("(POINTER_T("):
+                    # emulated pointers can not be instantiated
+                    init_value = None
 
         elif isinstance(tp.typ, typedesc.Structure):
             init_value = self.type_name(tp.typ, False)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index fc2caaa..89cf574 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -360,8 +360,12 @@ class CursorHandler(ClangHandler):
             init_value = None
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
+            kind = None
             if len(init_value) > 0:
-                init_value = init_value[0][1]
+                kind, init_value = init_value[0]
+            if self.is_pointer_type(_ctype) and kind not in (CursorKind.STRING_LITERAL, CursorKind.INTEGER_LITERAL):  # noqa
+                # an address is not known here
+                init_value = None
             if isinstance(init_value, typedesc.T):
                 # the declaration of the variable's type, not a value
                 init_value = None
-- 
2.43.0


From 2b00ebf4dc3f51ed78f46ce4e0cf2de3f6b94925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 023/102] fix: define the type of a variable before the
 variable

---
 ctypeslib/codegen/codegenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 6251df8..b1c9378 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -378,6 +378,7 @@ class Generator:
         # el
         if isinstance(tp.init, typedesc.FunctionType):
             _args = [x for x in tp.typ.iterArgNames()]
+            self._generate(tp.typ)
             print("%s = %s # args: %s" % (tp.name, self.type_name(tp.init), _args), file=self.stream)
             self.names.append(tp.name)
             return
@@ -448,6 +449,8 @@ class Generator:
                 # integers
                 init_value = 0
         #
+        # the type may be declared later, or filtered out
+        self._generate(tp.typ)
         # print it out
         print("%s = %s # Variable %s" % (tp.name, init_value, self.type_name(tp.typ, False)), file=self.stream)
         #
-- 
2.43.0


From 50b7cd1eea13b7c72239ee66a4d8e8faa5a63b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 024/102] fix: give a variable the value of its definition
 after an extern declaration

---
 ctypeslib/codegen/cursorhandler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 89cf574..a260253 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -270,8 +270,16 @@ class CursorHandler(ClangHandler):
         name = self.get_unique_name(cursor)
         log.debug('VAR_DECL: name: %s', name)
         # Check for a previous declaration in the register
-        if self.is_registered(name):
-            return self.get_registered(name)
+        obj = self.get_registered(name) if self.is_registered(name) else None
+        if isinstance(obj, typedesc.Variable) and (obj.init is None or obj.init == []):
+            # extern and tentative declarations come before the definition
+            _type, _ = self._VAR_DECL_type(cursor)
+            obj.init = self._VAR_DECL_value(cursor, _type)
+            if self.is_array_type(cursor.type) and not cursor.type.kind == TypeKind.INCOMPLETEARRAY:  # noqa
+                obj.typ = _type
+            return obj
+        if obj is not None:
+            return obj
         # get the typedesc object
         _type, extern = self._VAR_DECL_type(cursor)
         # transform the ctypes values into ctypeslib
-- 
2.43.0


From 2e4f857101ac8280ec0108050c2067ea522bd117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 025/102] fix: resolve macros and hexadecimal numbers in
 variable initialisers

---
 ctypeslib/codegen/codegenerator.py |  2 ++
 ctypeslib/codegen/cursorhandler.py | 29 +++++++++++++++++++++++------
 ctypeslib/codegen/util.py          |  4 ++++
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index b1c9378..3c268c0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -448,6 +448,8 @@ class Generator:
             else:
                 # integers
                 init_value = 0
+        if isinstance(init_value, float) and init_value in (float("inf"), float("-inf")):
+            init_value = "float('%s')" % init_value
         #
         # the type may be declared later, or filtered out
         self._generate(tp.typ)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index a260253..3a0591f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -103,15 +103,28 @@ class CursorHandler(ClangHandler):
             if len(children) == 0:
                 return value
             literal = children[-1]
-        if literal.kind in (CursorKind.INTEGER_LITERAL, CursorKind.STRING_LITERAL):  # noqa
+        is_char = _ctype.kind in (TypeKind.CHAR_S, TypeKind.CHAR_U, TypeKind.UCHAR, TypeKind.WCHAR,  # noqa
+                                  TypeKind.CHAR16, TypeKind.CHAR32)  # noqa
+        if literal.kind == CursorKind.STRING_LITERAL:  # noqa
             return value
-        if literal.kind == CursorKind.CHARACTER_LITERAL and _ctype.kind in (  # noqa
-                TypeKind.CHAR_S, TypeKind.CHAR_U, TypeKind.UCHAR, TypeKind.WCHAR,
-                TypeKind.CHAR16, TypeKind.CHAR32):  # noqa
+        if literal.kind == CursorKind.INTEGER_LITERAL and util.is_c_hexadecimal(value):  # noqa
+            # keep it as written where a number is printed
+            return int(value, 16) if is_char or cursor.kind != CursorKind.VAR_DECL else value  # noqa
+        if literal.kind == CursorKind.CHARACTER_LITERAL and is_char:  # noqa
+            if not self._is_from_macro(literal):
+                return value
+            return chr(util.evaluate(literal))
+        if _ctype.kind in (TypeKind.INT128, TypeKind.UINT128) and util.body_is_integer_expression([value]):  # noqa
+            # it may be too large for libclang
             return value
         number = util.evaluate(cursor)
         return value if number is None else number
 
+    def _is_from_macro(self, cursor):
+        """A literal that is part of the expansion of a macro"""
+        # its tokens then range from the definition of the macro to its use
+        return len(list(cursor.get_tokens())) != 1
+
     ################################
     # STATEMENTS handlers
 
@@ -374,10 +387,10 @@ class CursorHandler(ClangHandler):
             if self.is_pointer_type(_ctype) and kind not in (CursorKind.STRING_LITERAL, CursorKind.INTEGER_LITERAL):  # noqa
                 # an address is not known here
                 init_value = None
+            init_value = self._number_value(_ctype, cursor, init_value)
             if isinstance(init_value, typedesc.T):
                 # the declaration of the variable's type, not a value
                 init_value = None
-            init_value = self._number_value(_ctype, cursor, init_value)
         return init_value
 
     def _get_var_decl_init_value(self, _ctype, children):
@@ -647,7 +660,11 @@ class CursorHandler(ClangHandler):
                         # fall back on pass through
                         pass
             elif cursor.type.kind in [TypeKind.FLOAT, TypeKind.DOUBLE]:  # noqa
-                retval = float(retval)
+                try:
+                    retval = float(retval)
+                except ValueError:
+                    # an expression
+                    pass
         # Things we do not want to do:
         # elif cursor.kind == CursorKind.BINARY_OPERATOR:
         #     # cursor.kind == binary_operator, then need to make some additions
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index ee75301..df6c859 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -172,6 +172,10 @@ def from_c_number_literal(value):
     return from_c_float_literal(value) or value
 
 
+def is_c_hexadecimal(value):
+    return isinstance(value, str) and re.match(r"^0[xX][0-9a-fA-F]+$", value) is not None
+
+
 def evaluate(cursor):
     """Returns the number that libclang computes for an expression or a variable, or None."""
     lib = conf.lib
-- 
2.43.0


From 23db0e8e67423320b9f5d3cfa2a0e4289ddc4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 026/102] fix: accept a negated expression with hexadecimal
 numbers as initialiser

---
 ctypeslib/codegen/cursorhandler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 3a0591f..6ff0cee 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -651,14 +651,14 @@ class CursorHandler(ClangHandler):
         log.debug('cursor.type.kind:%s', cursor.type.kind.name)
         if cursor.kind == CursorKind.UNARY_OPERATOR:  # noqa
             if cursor.type.kind in [TypeKind.INT, TypeKind.LONG]:  # noqa
-                if '0x' in retval:
-                    retval = int(retval, 16)
-                else:
-                    try:
+                try:
+                    if '0x' in retval:
+                        retval = int(retval, 16)
+                    else:
                         retval = int(retval)
-                    except ValueError:
-                        # fall back on pass through
-                        pass
+                except ValueError:
+                    # fall back on pass through
+                    pass
             elif cursor.type.kind in [TypeKind.FLOAT, TypeKind.DOUBLE]:  # noqa
                 try:
                     retval = float(retval)
-- 
2.43.0


From baa5433ee6c5221e1d4b5714f922d98f78595787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 027/102] fix: do not take a character in an expression for its
 text

---
 ctypeslib/codegen/cursorhandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6ff0cee..01ae720 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -579,7 +579,9 @@ class CursorHandler(ClangHandler):
                 value = float(util.from_c_number_literal(value))
             elif (token.cursor.kind == CursorKind.CHARACTER_LITERAL or  # noqa
                           token.cursor.kind == CursorKind.STRING_LITERAL):  # noqa
-                value = self._clean_string_literal(token.cursor, value)
+                if cursor.kind not in (CursorKind.UNARY_OPERATOR, CursorKind.BINARY_OPERATOR):  # noqa
+                    # in an expression, a character is not its text
+                    value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_INSTANTIATION:  # noqa
                 # get the macro value
                 value = self.get_registered(value).body
-- 
2.43.0


From 42cfd303c82424b7ba3aa0eed2396130c8342710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 028/102] fix: accept a library given by its linker name

---
 ctypeslib/codegen/codegenerator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 3c268c0..507d6f9 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -810,11 +810,14 @@ class Generator:
             print("# You can either re-run clan2py with -l /path/to/library.so",file=self.imports)
             print("# Or manually fix this by comment the ctypes.CDLL loading", file=self.imports)
 
+        # a library found by its linker name is a ctypes.CDLL, it has no file path
+        filepath = library._name if isinstance(library, ctypes.CDLL) else library._filepath
+
         # generate windows call
         if cc == "stdcall":
             self.need_WinLibraries()
             if library._name not in self._stdcall_libraries:
-                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, library._filepath)
+                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, filepath)
                 print(_, file=self.imports)
                 self._stdcall_libraries[library._name] = None
             return "_stdcall_libraries[%r]" % library._name
@@ -826,7 +829,7 @@ class Generator:
         else:
             global_flag = ""
         if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, library._filepath, global_flag),
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, filepath, global_flag),
                   file=self.imports)
             self._c_libraries[library._name] = None
         return "_libraries[%r]" % library._name
-- 
2.43.0


From 93b4c1081c001dfdf33c6f9c48e7c88b15402e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 029/102] fix: tell libraries with the same file name apart

---
 ctypeslib/codegen/codegenerator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 507d6f9..8334302 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -828,11 +828,15 @@ class Generator:
             global_flag = ", mode=ctypes.RTLD_GLOBAL"
         else:
             global_flag = ""
-        if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, filepath, global_flag),
+        key = library._name
+        if self._c_libraries.get(key, filepath) != filepath:
+            # another library with the same file name
+            key = filepath
+        if key not in self._c_libraries:
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (key, stub_comment, filepath, global_flag),
                   file=self.imports)
-            self._c_libraries[library._name] = None
-        return "_libraries[%r]" % library._name
+            self._c_libraries[key] = filepath
+        return "_libraries[%r]" % key
 
     _STRING_defined = False
 
-- 
2.43.0


From 1f555bc12f5ccdcab7dd24199e576e11d38699a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 030/102] fix: use the prototype of a function first declared
 without one

---
 ctypeslib/codegen/cursorhandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 01ae720..f7abb1a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -203,7 +203,12 @@ class CursorHandler(ClangHandler):
         # FIXME to UT
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if isinstance(obj, typedesc.Function) and not list(obj.iterArgTypes()):
+                # the prototype of a function declared without one
+                for arg in cursor.get_arguments():
+                    obj.add_argument(self.parse_cursor(arg))
+            return obj
         returns = self.parse_cursor_type(cursor.type.get_result())
         attributes = []
         extern = False
-- 
2.43.0


From cdc45c29fdd218923d086a6658d42c6534e464d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 031/102] fix: pass array parameters as pointers

---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index f7abb1a..65bf53e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -243,6 +243,12 @@ class CursorHandler(ClangHandler):
                 _argtype = self.parse_cursor_type(_type)
             else:
                 _argtype = self.get_registered(_argtype_name)
+        if self.is_array_type(_type.get_canonical()):
+            # an array parameter is a pointer to the array's elements
+            _array = self.parse_cursor_type(_type.get_canonical())
+            size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
+            _argtype = typedesc.PointerType(_array.typ, size, size)
+            _argtype.location = _array.location
         obj = typedesc.Argument(_name, _argtype)
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
-- 
2.43.0


From 2a57be2d91c011cd73dac7c35662644d537a9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 032/102] fix: pass function parameters as pointers

---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 65bf53e..25ca111 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -249,6 +249,10 @@ class CursorHandler(ClangHandler):
             size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
             _argtype = typedesc.PointerType(_array.typ, size, size)
             _argtype.location = _array.location
+        elif _type.get_canonical().kind in [TypeKind.FUNCTIONPROTO, TypeKind.FUNCTIONNOPROTO]:
+            # a function parameter is a pointer to the function
+            size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
+            _argtype = typedesc.PointerType(self.parse_cursor_type(_type.get_canonical()), size, size)
         obj = typedesc.Argument(_name, _argtype)
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
-- 
2.43.0


From d76746fe120c4a97782cfa78d3b5d2803f87d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 033/102] fix: define the constants of an enumeration declared
 before its definition

---
 ctypeslib/codegen/cursorhandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 25ca111..a43be81 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -187,6 +187,8 @@ class CursorHandler(ClangHandler):
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
             return self.get_registered(name)
+        # the constants are in the definition, which may follow a declaration
+        cursor = cursor.get_definition() or cursor
         align = cursor.type.get_align()
         size = cursor.type.get_size()
         obj = self.register(name, typedesc.Enumeration(name, size, align))
-- 
2.43.0


From 0d684a1a7bd4c4e6bb3b64b89f211be7b55aab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 034/102] fix: define enumerations declared inside a record
 without a member

---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index a43be81..ae0d9fd 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -807,6 +807,10 @@ class CursorHandler(ClangHandler):
                 obj.packed = True
                 log.debug('PACKED record')
                 continue  # dont mess with field calculations
+            elif child.kind == CursorKind.ENUM_DECL and child.is_definition():
+                # an enumeration that no member has as type still defines its constants
+                self.parse_cursor(child)
+                continue
             else:  # could be others.... struct_decl, etc...
                 log.debug(
                     'Unhandled field %s in record %s',
-- 
2.43.0


From 4b69e6f60d39613076d3511a8ccf7bf85360a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 035/102] fix: define records declared inside a record without
 a member

---
 ctypeslib/codegen/cursorhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ae0d9fd..2fae238 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -811,6 +811,11 @@ class CursorHandler(ClangHandler):
                 # an enumeration that no member has as type still defines its constants
                 self.parse_cursor(child)
                 continue
+            elif (child.kind in [CursorKind.STRUCT_DECL, CursorKind.UNION_DECL] and child.is_definition()
+                  and not child.is_anonymous()):
+                # so does a record
+                self.parse_cursor(child)
+                continue
             else:  # could be others.... struct_decl, etc...
                 log.debug(
                     'Unhandled field %s in record %s',
-- 
2.43.0


From 9beb950609ded9054898c076f32dd14a0c9b7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 036/102] fix: make identifiers of any file name

---
 ctypeslib/codegen/handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 2a1d7a4..541f04a 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -85,6 +85,8 @@ class ClangHandler(object):
             # names.
             if name.startswith("__"):
                 return "_X" + name
+        # file names are part of some USR
+        name = re.sub(r'\W', '_', name)
         if len(name) == 0:
             pass
         elif name[0] in "01234567879":
-- 
2.43.0


From e9e2f437d21319c4d9ee851084b8fd0c7ede1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 037/102] fix: keep records whose first declaration comes
 before the definition

---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2fae238..52a2808 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -781,6 +781,10 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
+            if obj.location is None and cursor.is_definition():
+                # it was only declared until now
+                self.set_location(obj, cursor)
+                self.set_comment(obj, cursor)
         # capture members declaration
         members = []
         # Go and recurse through fields
-- 
2.43.0


From 4e851682ac2cc64aab64cf6ad9fb9c2cf1a6b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 038/102] fix: keep records that are declared several times
 before the definition

---
 ctypeslib/codegen/cursorhandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 52a2808..4065451 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -781,10 +781,10 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
-            if obj.location is None and cursor.is_definition():
+            if obj.location is None:
                 # it was only declared until now
-                self.set_location(obj, cursor)
-                self.set_comment(obj, cursor)
+                self.set_location(obj, cursor.get_definition())
+                self.set_comment(obj, cursor.get_definition())
         # capture members declaration
         members = []
         # Go and recurse through fields
-- 
2.43.0


From 40c7f1f1ff2b0b76d4faca7d7173b960b18d40c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 039/102] fix: write docstrings as python literals

---
 ctypeslib/codegen/codegenerator.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 8334302..9940e3b 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -906,17 +906,15 @@ class Generator:
                     return "unknown"
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
-            print(
-                '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
-                '    {file}:{line}"""'.format(
-                    funcname=func.name,
-                    args=", ".join(["%s %s" % i for i in argsAndTypes]),
-                    file=func.location[0],
-                    line=func.location[1],
-                    ret=typeString(func.returns),
-                ),
-                file=self.stream,
+            doc = "{ret} {funcname}({args})\n    {file}:{line}".format(
+                funcname=func.name,
+                args=", ".join(["%s %s" % i for i in argsAndTypes]),
+                file=func.location[0],
+                line=func.location[1],
+                ret=typeString(func.returns),
             )
+            # the file name can be anything
+            print("%s.__doc__ = %r" % (func.name, doc), file=self.stream)
 
         self.names.append(func.name)
         self._functiontypes += 1
-- 
2.43.0


From dabd3236ebc0bbe38e11f88e1f9e9af84113a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 040/102] fix: generate the types of base class members in a
 fixed order

---
 ctypeslib/codegen/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 9940e3b..e6cb1d2 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -577,7 +577,7 @@ class Generator:
             return
         self.enable_structure_type()
         self._structures += 1
-        depends = set()
+        depends = collections.OrderedDict()
         # We only print a empty struct.
         if struct.members is None:
             log.info("No members for: %s", struct.name)
@@ -590,8 +590,8 @@ class Generator:
             del self.done[struct]
         # checks members dependencies in bases
         for b in struct.bases:
-            depends.update([self.get_undeclared_type(m.type) for m in b.members])
-        depends.discard(None)
+            depends.update((self.get_undeclared_type(m.type), None) for m in b.members)
+        depends.pop(None, None)
         if len(depends) > 0:
             log.debug("Generate %s DEPENDS for Bases %s", struct.name, depends)
             for dep in depends:
-- 
2.43.0


From 91c6993b653774931528af0f6af1bfccb698f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 041/102] fix: keep the type names of each parser apart

---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5c92a06..d209883 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -78,6 +78,8 @@ class Clang_Parser:
         self.tu_options = None
         self.flags = flags
         self.ctypes_sizes = {}
+        # the names depend on this parser's target
+        self.ctypes_typename = dict(self.ctypes_typename)
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
         self.cursorkind_handler = cursorhandler.CursorHandler(self)
-- 
2.43.0


From d000f50963757f144d5e55d0e5f87561a18b3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 042/102] fix: do not share lists between configurations

---
 ctypeslib/codegen/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 0f8c6ca..b8c294b 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -39,6 +39,12 @@ class CodegenConfig:
     clang_opts: list = []
 
     def __init__(self):
+        # lists are not shared between configurations
+        self.symbols = []
+        self.expressions = []
+        self.preloaded_dlls = []
+        self.known_symbols = {}
+        self.searched_dlls = []
         self._init_types()
         self.clang_opts = []
         if sys.platform == 'darwin':
-- 
2.43.0


From f985a8a6912038232ffee9a824866f00b918c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 043/102] fix: load preloaded libraries by name and leave the
 configuration alone

---
 ctypeslib/codegen/codegenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e6cb1d2..a635576 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -993,7 +993,7 @@ class Generator:
     def generate_code(self, items):
         print(
             "\n".join(
-                ["ctypes.CDLL('%s', ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
+                ["ctypes.CDLL(%r, ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
             ),
             file=self.imports,
         )
@@ -1056,8 +1056,9 @@ class CodeTranslator:
         self.filtered_items = []
 
     def preload_dlls(self):
-        # FIXME
-        self.cfg.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        # the generated code loads them by name, here they only have to exist
+        for name in self.cfg.preloaded_dlls:
+            Library(name, nm="nm")
 
     def make_clang_parser(self):
         self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)
-- 
2.43.0


From b138cff783d9ef1c32b1b3a44a987ec74c5c7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 044/102] fix: translate strings with the options of the
 configuration

---
 ctypeslib/codegen/clangparser.py | 4 +++-
 ctypeslib/codegen/util.py        | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index d209883..e61c59d 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -134,7 +134,9 @@ class Clang_Parser:
 
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
         """Use this parser on a memory string/file, instead of a file on disk"""
-        translation_unit = util.get_tu(input_data, lang, all_warnings, flags)
+        if flags is None:
+            flags = self.flags
+        translation_unit = util.get_tu(input_data, lang, all_warnings, flags, self.tu_options)
         self._parse_tu_diagnostics(translation_unit, "memory_input.c")
         self.tu = translation_unit
         root = self.tu.cursor
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index df6c859..c81da92 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -17,7 +17,7 @@ from ctypeslib.codegen import typedesc
 log = logging.getLogger('utils')
 
 
-def get_tu(source, lang='c', all_warnings=False, flags=None):
+def get_tu(source, lang='c', all_warnings=False, flags=None, options=0):
     """Obtain a translation unit from source and language.
 
     By default, the translation unit is created from source file "t.<ext>"
@@ -41,7 +41,7 @@ def get_tu(source, lang='c', all_warnings=False, flags=None):
     if all_warnings:
         args += ['-Wall', '-Wextra']
 
-    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])
+    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)], options=options)
 
 
 def get_cursor(source, spelling):
-- 
2.43.0


From 6841c770dd6c8da15a92ef6bf6c359e075f74e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 045/102] fix: remove the temporary file of the standard input

---
 ctypeslib/clang2py.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index df7a857..44e82b7 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -67,13 +67,14 @@ class Input:
 
     def __init__(self, options):
         self.files = []
-        self._stdin = None
+        self._stdin = []
         for in_file in options.files:
             # stdin case
             if in_file == sys.stdin:
                 # pylint: disable-next=consider-using-with
                 _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
                 _stdin.write(in_file.read())
+                self._stdin.append(_stdin)
                 in_file = _stdin
             self.files.append(in_file.name)
             in_file.close()
@@ -82,8 +83,8 @@ class Input:
         return self
 
     def __exit__(self, exc_type, exc_value, ecx_tb):
-        if self._stdin:
-            os.remove(self._stdin.name)
+        for _stdin in self._stdin:
+            os.remove(_stdin.name)
         return False
 
 
-- 
2.43.0


From 48778d0bc8e78db028d1851295e6c7ddb5d0a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 046/102] fix: convert the elements of nested arrays to
 dictionaries

---
 ctypeslib/data/structure_type.tpl | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d44a4b4..911843e 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -17,11 +17,14 @@ class AsDictMixin:
             type_ = type(value)
             if hasattr(value, "_length_") and hasattr(value, "_type_"):
                 # array
-                type_ = type_._type_
-                if hasattr(type_, 'as_dict'):
-                    value = [type_.as_dict(v) for v in value]
-                else:
-                    value = [i for i in value]
+                def as_list(array):
+                    # the elements can be records, arrays or python objects
+                    if hasattr(array, "_length_") and hasattr(array, "_type_"):
+                        return [as_list(v) for v in array]
+                    if isinstance(array, AsDictMixin):
+                        return type(array).as_dict(array)
+                    return array
+                value = as_list(value)
             elif hasattr(value, "contents") and hasattr(value, "_type_"):
                 # pointer
                 try:
-- 
2.43.0


From d0682a7d249a8f0db2a5fda78dc1babb41c5e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 047/102] fix: accept a member named self as keyword

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 911843e..de6610e 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -45,7 +45,7 @@ class AsDictMixin:
 
 class Structure(ctypes.Structure, AsDictMixin):
 
-    def __init__(self, *args, **kwds):
+    def __init__(self, /, *args, **kwds):
         # We don't want to use positional arguments fill PADDING_* fields
 
         args = dict(zip(self.__class__._field_names_(), args))
-- 
2.43.0


From 0f7313ed6126a3935ac7836e383329cba5269ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 048/102] fix: leave the dictionary of the bound fields alone

---
 ctypeslib/data/structure_type.tpl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index de6610e..2705b1f 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -69,6 +69,8 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def bind(cls, bound_fields):
         fields = {}
+        # the caller keeps its dictionary
+        bound_fields = dict(bound_fields)
         for name, type_ in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
-- 
2.43.0


From 68a994b61b3e1b73f714e06bafb7e38e09f505ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 049/102] fix: bind callbacks of records with bit fields

---
 ctypeslib/data/structure_type.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 2705b1f..d60a317 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -71,7 +71,7 @@ class Structure(ctypes.Structure, AsDictMixin):
         fields = {}
         # the caller keeps its dictionary
         bound_fields = dict(bound_fields)
-        for name, type_ in cls._fields_:
+        for name, type_, *bits in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -96,7 +96,7 @@ class Structure(ctypes.Structure, AsDictMixin):
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                else:
+                elif not bits:
                     fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
-- 
2.43.0


From 34fe2663788b9a2148c7e1db7737f5142bcc31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 050/102] fix: bind records with callbacks that return a
 pointer or a record

---
 ctypeslib/data/structure_type.tpl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d60a317..b230ed6 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -87,10 +87,14 @@ class Structure(ctypes.Structure, AsDictMixin):
                     # default callback implementation (does nothing)
                     try:
                         default_ = type_(0).restype().value
-                    except TypeError:
+                    except (TypeError, AttributeError):
                         default_ = None
-                    fields[name] = type_((
-                        lambda default_: lambda *args: default_)(default_))
+                    try:
+                        fields[name] = type_((
+                            lambda default_: lambda *args: default_)(default_))
+                    except TypeError:
+                        # python functions can not return such a result
+                        fields[name] = type_()
             else:
                 # not a callback function, use default initialization
                 if name in bound_fields:
-- 
2.43.0


From fb84effa0f833c479c7c9d604ab6694a74145c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 051/102] fix: do not take members whose name starts with
 PADDING for padding

---
 ctypeslib/data/structure_type.tpl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index b230ed6..eb32d6d 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -1,4 +1,9 @@
 class AsDictMixin:
+    @staticmethod
+    def _is_padding_(field):
+        # PADDING_0, PADDING_1...; other names that start with PADDING are members
+        return field.startswith('PADDING_') and field[8:].isdigit()
+
     @classmethod
     def as_dict(cls, self):
         result = {}
@@ -11,7 +16,7 @@ class AsDictMixin:
         # for (field, *_) in cls._fields_:  # noqa
         for field_tuple in cls._fields_:  # noqa
             field = field_tuple[0]
-            if field.startswith('PADDING_'):
+            if cls._is_padding_(field):
                 continue
             value = getattr(self, field)
             type_ = type(value)
@@ -55,7 +60,7 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def _field_names_(cls):
         if hasattr(cls, '_fields_'):
-            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
+            return (f[0] for f in cls._fields_ if not cls._is_padding_(f[0]))
         else:
             return ()
 
-- 
2.43.0


From 1928fb50d7e38f6e05ff11fe5b4564e6f970e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 052/102] fix: convert null pointers to None in dictionaries

---
 ctypeslib/data/structure_type.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index eb32d6d..d3e4a83 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -30,8 +30,8 @@ class AsDictMixin:
                         return type(array).as_dict(array)
                     return array
                 value = as_list(value)
-            elif hasattr(value, "contents") and hasattr(value, "_type_"):
-                # pointer
+            elif hasattr(type_, "contents") and hasattr(type_, "_type_"):
+                # pointer; the attribute of a null pointer can not be read
                 try:
                     if not hasattr(type_, "as_dict"):
                         value = value.contents
-- 
2.43.0


From 0c169b966ee7e0ecac3890b6ff41bae3bd949e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 053/102] fix: bind records with character arrays

---
 ctypeslib/data/structure_type.tpl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d3e4a83..331fad4 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -76,7 +76,7 @@ class Structure(ctypes.Structure, AsDictMixin):
         fields = {}
         # the caller keeps its dictionary
         bound_fields = dict(bound_fields)
-        for name, type_, *bits in cls._fields_:
+        for name, type_, *_ in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -101,12 +101,10 @@ class Structure(ctypes.Structure, AsDictMixin):
                         # python functions can not return such a result
                         fields[name] = type_()
             else:
-                # not a callback function, use default initialization
+                # not a callback function, zero unless it is given
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                elif not bits:
-                    fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
                 "Cannot bind the following unknown callback(s) {}.{}".format(
-- 
2.43.0


From 1a6a7f708f08fe7e75e797fddfb2b7a03b526b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 054/102] fix: know the weak, zero-initialised and indirect
 symbols of a library

---
 ctypeslib/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index d584b9c..d600f30 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -46,7 +46,8 @@ class Library(metaclass=LibraryMeta):
         output = subprocess.check_output(cmd, universal_newlines=True)
         for line in output.split('\n'):
             fields = line.split(' ', 2)
-            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S"):
+            # B: zero-initialised, V and W: weak, i: indirect function, u: unique
+            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S", "B", "V", "W", "i", "u"):
                 if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]
                 self.__symbols[fields[2]] = fields[0]
 
-- 
2.43.0


From 457b960e1cfbdda389847051f47b1cfa566c0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 055/102] fix: use the definition in an include of a record
 that a source file only declares

---
 ctypeslib/codegen/clangparser.py   | 27 +++++++++++++++++----------
 ctypeslib/codegen/cursorhandler.py |  3 +++
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index e61c59d..09ed4cc 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -161,21 +161,28 @@ class Clang_Parser:
             # code.interact(local=locals())
             raise InvalidTranslationUnitException(errors[0])
 
+    def is_filtered(self, node):
+        """True if the node is outside of the source files that are looked at"""
+        if self.__filter_location is None:
+            return False
+        if node.location.file is None:
+            return True
+        filepath = os.path.abspath(node.location.file.name)
+        if filepath not in self.__filter_location:
+            if not filepath.startswith("/usr"):
+                log.debug("skipping include '%s'", filepath)
+            return True
+        return False
+
     def start_element(self, node):
         """Recurses in children of this node"""
         if node is None:
             return None
 
-        if self.__filter_location is not None:
-            # dont even parse includes.
-            # FIXME: go back on dependencies ?
-            if node.location.file is None:
-                return None
-            filepath = os.path.abspath(node.location.file.name)
-            if filepath not in self.__filter_location:
-                if not filepath.startswith("/usr"):
-                    log.debug("skipping include '%s'", filepath)
-                return None
+        # dont even parse includes.
+        # FIXME: go back on dependencies ?
+        if self.is_filtered(node):
+            return None
         # find and call the handler for this element
         log.debug(
             "%s:%d: Found a %s|%s|%s",
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 4065451..958b549 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -765,6 +765,9 @@ class CursorHandler(ClangHandler):
         obj = None
         if not self.is_registered(name):
             if not cursor.is_definition():
+                if self.parser.is_filtered(cursor.get_definition()):
+                    # the definition is in an include, nobody else will look at it
+                    return self._record_decl(cursor.get_definition(), _output_type, num)
                 # just save the spot, don't look at members == None
                 log.debug('cursor %s is not on a definition', name)
                 obj = _output_type(name, align, None, bases, size, packed=False)
-- 
2.43.0


From 521ff11aa29ca466df59b667ae2b21dbe5376964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 056/102] fix: accept an incomplete record declared in several
 files

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 958b549..94a287b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -737,6 +737,9 @@ class CursorHandler(ClangHandler):
         align = cursor.type.get_align()
         if size == -2: #
             # CXTypeLayoutError_Incomplete = -2
+            if self.is_registered(name):
+                # declared in another file already
+                return self.get_registered(name)
             # produce an empty structure declaration
             size = align = 0
             log.debug('_record_decl: name: %s CXTypeLayoutError_Incomplete', name)
-- 
2.43.0


From 1b582d4bb87846ddf6137f5f18eec42a32546a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 057/102] fix: give a record the size of its definition when
 another file only declares it

---
 ctypeslib/codegen/cursorhandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 94a287b..70e3c70 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -787,6 +787,8 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
+            # another file may have declared it only
+            obj.size, obj.align = size, align
             if obj.location is None:
                 # it was only declared until now
                 self.set_location(obj, cursor.get_definition())
-- 
2.43.0


From 03cc0996612b8213d6b36b2172ea34938dd3881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 058/102] fix: use the definition of a record that another
 source file only declares

---
 ctypeslib/codegen/clangparser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 09ed4cc..30e72cf 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -5,7 +5,7 @@ import os
 import collections
 
 from clang.cindex import Index, TranslationUnit
-from clang.cindex import TypeKind
+from clang.cindex import CursorKind, TypeKind
 
 from ctypeslib.codegen import cursorhandler
 from ctypeslib.codegen import typedesc
@@ -174,6 +174,13 @@ class Clang_Parser:
             return True
         return False
 
+    def is_missing_definition(self, node):
+        """True if the node defines a record that was only declared until now"""
+        if node.kind not in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL) or not node.is_definition():
+            return False
+        name = self.cursorkind_handler.get_unique_name(node)
+        return self.is_registered(name) and self.get_registered(name).members is None
+
     def start_element(self, node):
         """Recurses in children of this node"""
         if node is None:
@@ -181,7 +188,7 @@ class Clang_Parser:
 
         # dont even parse includes.
         # FIXME: go back on dependencies ?
-        if self.is_filtered(node):
+        if self.is_filtered(node) and not self.is_missing_definition(node):
             return None
         # find and call the handler for this element
         log.debug(
-- 
2.43.0


From f94c05cca5a9c1a1cb9917e463a9dd38b2a5beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 059/102] fix: accept initialisers with macros of an include
 that is left out

---
 ctypeslib/codegen/cursorhandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 70e3c70..d460594 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -600,8 +600,9 @@ class CursorHandler(ClangHandler):
                     # in an expression, a character is not its text
                     value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_INSTANTIATION:  # noqa
-                # get the macro value
-                value = self.get_registered(value).body
+                # get the macro value, if it is not from an include that is left out
+                if self.is_registered(value):
+                    value = self.get_registered(value).body
                 # already cleaned value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
                 tk = token.kind
-- 
2.43.0


From 4bb97050b7d690e89319d545c672540473d492d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 060/102] fix: accept the typedef of an anonymous enumeration
 of an include that is left out

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index d460594..9730c1f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -287,6 +287,9 @@ class CursorHandler(ClangHandler):
             raise TypeError(
                 'Bad TYPEREF parsing in TYPEDEF_DECL: %s' %
                 _type.spelling)
+        # an anonymous enumeration is registered under the name of its typedef
+        if self.is_registered(name):
+            return self.get_registered(name)
         # register the type
         obj = self.register(name, typedesc.Typedef(name, p_type))
         self.set_location(obj, cursor)
-- 
2.43.0


From 45a8ac0c5720879629ed3c2d394db5038a530af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 061/102] fix: keep the records inside a record that another
 file only declares

---
 ctypeslib/codegen/cursorhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9730c1f..6847453 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -813,8 +813,8 @@ class CursorHandler(ClangHandler):
         # FIXME BUG clang: anonymous structure field with only one anonymous field
         # is not a FIELD_DECL. does not appear in get_fields() !!!
         #
-        # check for other stuff
-        for child in cursor.get_children():
+        # check for other stuff, which is in the definition only
+        for child in (cursor.get_definition() or cursor).get_children():
             if child in fields:
                 continue
             elif child in decl_f:
-- 
2.43.0


From a84ceb8cd951fe5781ce27cd46e25942e83fbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 062/102] fix: keep the sign of bit fields that are stored in
 another type

---
 ctypeslib/codegen/cursorhandler.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6847453..2ef7d5b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -924,7 +924,7 @@ class CursorHandler(ClangHandler):
             log.debug('_fixup_record_bitfield_size: fix type to %s', name)
             # set the whole bitfield to the appropriate type size.
             for m in members:
-                m.type.name = name
+                self._set_bitfield_type(m, name)
                 if m.is_padding:
                     # this is the last field.
                     # reduce the size of this padding field to the
@@ -954,6 +954,22 @@ class CursorHandler(ClangHandler):
         #
         return
 
+    def _set_bitfield_type(self, member, name):
+        """Give a bitfield member the storage type, with the sign of its own type"""
+        if member.type.name == name:
+            return
+        own = member.type
+        if isinstance(own, typedesc.Enumeration):
+            signed = any(v.value < 0 for v in own.values)
+        else:
+            signed = own.name.startswith("c_int")
+        if name.startswith("c_int") and not signed:
+            name = name.replace("c_int", "c_uint")
+        elif name.startswith("c_uint") and signed:
+            name = name.replace("c_uint", "c_int")
+        # the type of the member may be used elsewhere
+        member.type = typedesc.FundamentalType(name, own.size, own.align)
+
     def _fixup_record(self, s):
         """Fixup padding on a record"""
         log.debug('FIXUP_STRUCT: %s %d bits', s.name, s.size * 8)
-- 
2.43.0


From 67016dd7b7a1f5c882413289578ea3cea8fd7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 063/102] fix: bit fields of type char, _Bool and of
 enumerations next to others

---
 ctypeslib/codegen/cursorhandler.py | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2ef7d5b..c27aa47 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -905,7 +905,7 @@ class CursorHandler(ClangHandler):
         # to the bf_size
         # set the proper type name for the bitfield.
         for bf_size, members in bitfields:
-            name = members[0].type.name
+            name = self._bitfield_storage_name(members[0].type)
             pad_bits = 0
             if bf_size <= 8:  # use 1 byte - type = char
                 # prep the padding bitfield size
@@ -954,21 +954,29 @@ class CursorHandler(ClangHandler):
         #
         return
 
+    def _bitfield_storage_name(self, _type):
+        """The integer type which stores a bitfield of that type.
+        ctypes has no bitfields of c_char, and c_bool ones use the whole byte."""
+        if isinstance(_type, typedesc.Enumeration):
+            signed = any(v.value < 0 for v in _type.values)
+            return "c_%s%d" % ("int" if signed else "uint", _type.size * 8)
+        if _type.name in ("c_bool", "c_ubyte"):
+            return "c_uint8"
+        if _type.name in ("c_char", "c_byte"):
+            return "c_int8"
+        return _type.name
+
     def _set_bitfield_type(self, member, name):
         """Give a bitfield member the storage type, with the sign of its own type"""
-        if member.type.name == name:
-            return
-        own = member.type
-        if isinstance(own, typedesc.Enumeration):
-            signed = any(v.value < 0 for v in own.values)
-        else:
-            signed = own.name.startswith("c_int")
-        if name.startswith("c_int") and not signed:
-            name = name.replace("c_int", "c_uint")
-        elif name.startswith("c_uint") and signed:
+        own = self._bitfield_storage_name(member.type)
+        if own.startswith("c_int"):
             name = name.replace("c_uint", "c_int")
+        elif own.startswith("c_uint"):
+            name = name.replace("c_int", "c_uint")
+        if name == member.type.name or isinstance(member.type, typedesc.Enumeration) and name == own:
+            return
         # the type of the member may be used elsewhere
-        member.type = typedesc.FundamentalType(name, own.size, own.align)
+        member.type = typedesc.FundamentalType(name, member.type.size, member.type.align)
 
     def _fixup_record(self, s):
         """Fixup padding on a record"""
-- 
2.43.0


From 2d06147fd5558f059abd3ad2db9b075af43ba801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 064/102] fix: only promote a char to a bit field when it lies
 in the storage of the bit field

---
 ctypeslib/codegen/cursorhandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index c27aa47..2d67d53 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -942,7 +942,11 @@ class CursorHandler(ClangHandler):
                 if len(s.members) > i + 1:
                     # has to exists, no arch is aligned on 24 bits.
                     next_member = s.members[i + 1]
-                    if next_member.bits == 8:
+                    # the bits up to the end of the storage of the bitfield
+                    width = members[0].type.size * 8
+                    start = members[0].offset
+                    storage_end = start + -(-(m.offset + m.bits - start) // width) * width
+                    if next_member.bits == 8 and next_member.offset < storage_end:
                         # next_member field is a char.
                         # it will be aggregated in a 32 bits space
                         # we need to make it a member of 32bit bitfield
-- 
2.43.0


From 01c878359c6818191e2dba031ed5bc1fab976f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 065/102] fix: store bit fields of several types in one that
 has room for each of them

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2d67d53..28b87bb 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -906,6 +906,9 @@ class CursorHandler(ClangHandler):
         # set the proper type name for the bitfield.
         for bf_size, members in bitfields:
             name = self._bitfield_storage_name(members[0].type)
+            if any(m.bits > members[0].type.size * 8 for m in members):
+                # it has no room for the bits of another one
+                name = self._bitfield_storage_name(max(members, key=lambda m: m.type.size).type)
             pad_bits = 0
             if bf_size <= 8:  # use 1 byte - type = char
                 # prep the padding bitfield size
-- 
2.43.0


From 2605def42778d944299acf806271958cca7c044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 066/102] fix: store bit fields in the type of the widest one
 when one of them would not fit in the first

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 28b87bb..8dbe44c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -906,7 +906,8 @@ class CursorHandler(ClangHandler):
         # set the proper type name for the bitfield.
         for bf_size, members in bitfields:
             name = self._bitfield_storage_name(members[0].type)
-            if any(m.bits > members[0].type.size * 8 for m in members):
+            width = members[0].type.size * 8
+            if any((m.offset - members[0].offset) % width + m.bits > width for m in members):
                 # it has no room for the bits of another one
                 name = self._bitfield_storage_name(max(members, key=lambda m: m.type.size).type)
             pad_bits = 0
-- 
2.43.0


From 2e3aa436797ae6b4995ed902f3a06b36a921dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 067/102] fix: store bit fields of several types in the widest
 one where the record has room for it

---
 ctypeslib/codegen/cursorhandler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 8dbe44c..9c95520 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -907,9 +907,13 @@ class CursorHandler(ClangHandler):
         for bf_size, members in bitfields:
             name = self._bitfield_storage_name(members[0].type)
             width = members[0].type.size * 8
-            if any((m.offset - members[0].offset) % width + m.bits > width for m in members):
-                # it has no room for the bits of another one
-                name = self._bitfield_storage_name(max(members, key=lambda m: m.type.size).type)
+            widest = max(members, key=lambda m: m.type.size).type
+            following = s.members[s.members.index(members[-1]) + 1:]
+            room = (following[0].offset if following else s.size * 8) - members[0].offset
+            if ((members[0].offset % (widest.size * 8) == 0 and room >= widest.size * 8) or
+                    any((m.offset - members[0].offset) % width + m.bits > width for m in members)):
+                # the storage of the first one has no room for another one
+                name = self._bitfield_storage_name(widest)
             pad_bits = 0
             if bf_size <= 8:  # use 1 byte - type = char
                 # prep the padding bitfield size
-- 
2.43.0


From 9e5536d166f3c5a6255e41c6f9c799be016eda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 068/102] fix: name anonymous members of a record apart from
 its unnamed bit fields

---
 ctypeslib/codegen/codegenerator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index a635576..af1771b 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -722,6 +722,9 @@ class Generator:
 
         # unnamed fields get autogenerated names "_0", "_1", "_2", "_3", ...
         unnamed_fields = {}
+        # unless a bitfield without a name, or the source, uses one of them
+        taken = set(self._member_names(fields))
+        number = 0
         for f in fields:
             # _anonymous_ fields are fields of type Structure or Union,
             # that have no name.
@@ -729,7 +732,10 @@ class Generator:
                 # anonymous types can have a member name
                 # un-named anonymous record come here with a name == ''
                 if f.name == '':
-                    unnamed_fields[f] = "_%d" % len(unnamed_fields)
+                    while "_%d" % number in taken:
+                        number += 1
+                    unnamed_fields[f] = "_%d" % number
+                    number += 1
                 # otherwise, we want to keep that field's name
         if unnamed_fields:
             unnamed_fields_str = ", ".join("'%s'" % _ for _ in unnamed_fields.values())
@@ -759,6 +765,14 @@ class Generator:
         log.debug("Body finished for %s", body.name)
         self.body_generated.add(body.name)
 
+    def _member_names(self, fields):
+        """The names of these members, and of those of their anonymous records."""
+        for f in fields:
+            if f.name:
+                yield f.name
+            elif isinstance(f.type, (typedesc.Structure, typedesc.Union)):
+                yield from self._member_names(f.type.members or [])
+
     def find_library_with_func(self, func):
         if hasattr(func, "dllname"):
             return func.dllname
-- 
2.43.0


From 127610e9a9345a3df2085953c33a4144fbf8b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 069/102] fix: read tokens without their line continuations

---
 ctypeslib/codegen/cursorhandler.py | 4 ++--
 ctypeslib/codegen/util.py          | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9c95520..36f077c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -542,7 +542,7 @@ class CursorHandler(ClangHandler):
         log.debug('literal has %d tokens.[ %s ]', len(tokens), ' '.join([str(t.spelling) for t in tokens]))
         if len(tokens) == 1 and cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut that works for unicode
-            value = tokens[0].spelling
+            value = util.token_spelling(tokens[0])
             value = self._clean_string_literal(cursor, value)
             return value
         elif cursor.kind == CursorKind.STRING_LITERAL:  # noqa
@@ -554,7 +554,7 @@ class CursorHandler(ClangHandler):
         # code.interact(local=locals())
         log.debug('cursor.type:%s', cursor.type.kind.name)
         for i, token in enumerate(tokens):
-            value = token.spelling
+            value = util.token_spelling(token)
             log.debug('token:%s tk.kd:%11s tk.cursor.kd:%15s cursor.kd:%15s',
                       token.spelling, token.kind.name, token.cursor.kind.name,
                       cursor.kind.name)
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index c81da92..104321c 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -157,6 +157,15 @@ _c_integer_regex = re.compile(r"^(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)[uUlLzZ]*$")
 _c_hex_float_regex = re.compile(r"^(0[xX][0-9a-fA-F.]+[pP][+-]?\d+)[fFlL]?$")
 
 
+def token_spelling(token):
+    """The spelling of a token, without the line continuations in it or before it."""
+    value = token.spelling
+    if re.match(r'(?:L|u8|u|U)?R"', value):
+        # not in a raw string
+        return value
+    return re.sub(r"\\[ \t]*\r?\n", "", value)
+
+
 def from_c_number_literal(value):
     """Transforms the spelling of a C number into a python one, without its suffix."""
     match = _c_integer_regex.match(value)
-- 
2.43.0


From 96fba3870a2b647f9c159a320a5fa1015d7aec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 070/102] fix: find the base of a C++ class that is a struct,
 in a namespace or a typedef

---
 ctypeslib/codegen/handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 541f04a..09bfbe0 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -136,7 +136,8 @@ class ClangHandler(object):
         # covers most cases
         name = cursor.spelling
         if cursor.kind == CursorKind.CXX_BASE_SPECIFIER:
-            name = cursor.type.spelling
+            # struct or class, in any namespace
+            return self.get_unique_name(cursor.type.get_canonical().get_declaration())
         # if it's a record decl or field decl and its type is anonymous
         # clang > 16 changes anonymous names to have a parenthetical name
         # so force it to have blank name like it did in earlier clang versions
@@ -169,12 +170,11 @@ class ClangHandler(object):
                 #code.interact(local=locals())
                 return ''
         if cursor.kind in [CursorKind.STRUCT_DECL,CursorKind.UNION_DECL,
-                                 CursorKind.CLASS_DECL, CursorKind.CXX_BASE_SPECIFIER]:
+                                 CursorKind.CLASS_DECL]:
             names= {CursorKind.STRUCT_DECL: 'struct',
                     CursorKind.UNION_DECL: 'union',
                     CursorKind.CLASS_DECL: 'class',
                     CursorKind.TYPE_REF: '',
-                    CursorKind.CXX_BASE_SPECIFIER: 'class'
                     }
             if 'unnamed at' in name:
                 name = re.sub('[^a-zA-Z0-9]', '_', name)
-- 
2.43.0


From f432c8aae44147bbbe9a7e7f75bdfa7473f29850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 071/102] fix: the storage of the base of a C++ class counts
 once

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 36f077c..2bcf358 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1006,7 +1006,8 @@ class CursorHandler(ClangHandler):
         # Just fix the padding
         members = []
         member = None
-        offset = 0
+        # the members of a base come first
+        offset = sum(b.size * 8 for b in s.bases)
         padding_nb = 0
         member = None
         prev_member = None
-- 
2.43.0


From 780dba797b8adaf9116909a82d28fa60a95540a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 072/102] fix: translate the declarations in extern "C" blocks

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2bcf358..399fded 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -137,6 +137,9 @@ class CursorHandler(ClangHandler):
         for child in cursor.get_children():
             self.parse_cursor(child)  # FIXME, where is the starElement
 
+    # extern "C" { ... }
+    LINKAGE_SPEC = NAMESPACE
+
     ################################
     # TYPE REFERENCES handlers
 
-- 
2.43.0


From bfcf2e91cbc8f529dd432e3202cb141d7131b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 073/102] fix: references of C++ are stored and passed as
 pointers

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 ctypeslib/codegen/handler.py       | 6 +++++-
 ctypeslib/codegen/typehandler.py   | 7 +++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 399fded..be4710c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1187,6 +1187,9 @@ class CursorHandler(ClangHandler):
             bits = cursor.get_bitfield_width()
         else:
             bits = cursor.type.get_size() * 8
+            if self.is_reference_type(cursor.type.get_canonical()):
+                # not the size of what it refers to
+                bits = self.parser.get_ctypes_size(TypeKind.POINTER)
             if bits < 0:
                 log.warning('Bad source code, bitsize == %d <0 on %s', bits, name)
                 bits = 0
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 09bfbe0..43da976 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -187,7 +187,11 @@ class ClangHandler(object):
                 t.kind in self.parser.ctypes_typename.keys())
 
     def is_pointer_type(self, t):
-        return t.kind == TypeKind.POINTER
+        return t.kind == TypeKind.POINTER or self.is_reference_type(t)
+
+    def is_reference_type(self, t):
+        # stored and passed as a pointer
+        return t.kind in (TypeKind.LVALUEREFERENCE, TypeKind.RVALUEREFERENCE)
 
     def is_array_type(self, t):
         return (t.kind == TypeKind.CONSTANTARRAY or
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 1c535ef..a76e60b 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -55,8 +55,6 @@ class TypeHandler(ClangHandler):
     # OBJCSEL
     # COMPLEX
     # BLOCKPOINTER
-    # LVALUEREFERENCE
-    # RVALUEREFERENCE
     # OBJCINTERFACE
     # OBJCOBJECTPOINTER
     # FUNCTIONNOPROTO
@@ -128,6 +126,8 @@ class TypeHandler(ClangHandler):
         # get pointer size
         size = _cursor_type.get_size()  # not size of pointee
         align = _cursor_type.get_align()
+        if self.is_reference_type(_cursor_type):
+            size = align = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
         log.debug(
             "POINTER: size:%d align:%d typ:%s",
             size, align, _type.kind)
@@ -164,6 +164,9 @@ class TypeHandler(ClangHandler):
             obj.comment = comment
         return obj
 
+    LVALUEREFERENCE = POINTER
+    RVALUEREFERENCE = POINTER
+
     @log_entity
     def _array_handler(self, _cursor_type):
         """
-- 
2.43.0


From 89c6ad95c94c7ad1f88890971da788157a9e24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 074/102] fix: char16_t is two bytes wide

---
 ctypeslib/codegen/clangparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 30e72cf..50ccda0 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -45,7 +45,7 @@ class Clang_Parser:
         TypeKind.BOOL: "c_bool",
         TypeKind.CHAR_U: "c_ubyte",  # ?? used for PADDING
         TypeKind.UCHAR: "c_ubyte",  # unsigned char
-        TypeKind.CHAR16: "c_wchar",  # char16_t
+        TypeKind.CHAR16: "c_uint16",  # char16_t, c_wchar can be wider
         TypeKind.CHAR32: "c_wchar",  # char32_t
         TypeKind.USHORT: "c_ushort",
         TypeKind.UINT: "c_uint",
-- 
2.43.0


From 46e407708ec1d2bdc417169866cadfa29fe8cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 075/102] fix: translate classes defined in a class

---
 ctypeslib/codegen/clangparser.py   | 2 +-
 ctypeslib/codegen/cursorhandler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 50ccda0..389997c 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -176,7 +176,7 @@ class Clang_Parser:
 
     def is_missing_definition(self, node):
         """True if the node defines a record that was only declared until now"""
-        if node.kind not in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL) or not node.is_definition():
+        if node.kind not in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL) or not node.is_definition():
             return False
         name = self.cursorkind_handler.get_unique_name(node)
         return self.is_registered(name) and self.get_registered(name).members is None
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index be4710c..c7b7705 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -830,7 +830,7 @@ class CursorHandler(ClangHandler):
                 # an enumeration that no member has as type still defines its constants
                 self.parse_cursor(child)
                 continue
-            elif (child.kind in [CursorKind.STRUCT_DECL, CursorKind.UNION_DECL] and child.is_definition()
+            elif (child.kind in [CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL] and child.is_definition()
                   and not child.is_anonymous()):
                 # so does a record
                 self.parse_cursor(child)
-- 
2.43.0


From fddd15a9f2482c50bc087a23a6cda3fddb5fd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 076/102] fix: bases of a class that was declared before, and
 their order

---
 ctypeslib/codegen/codegenerator.py | 17 ++---------------
 ctypeslib/codegen/cursorhandler.py | 10 +++++-----
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index af1771b..453a9da 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -577,26 +577,14 @@ class Generator:
             return
         self.enable_structure_type()
         self._structures += 1
-        depends = collections.OrderedDict()
         # We only print a empty struct.
         if struct.members is None:
             log.info("No members for: %s", struct.name)
             self._generate(struct.get_head(), False)
             return
-        # look in bases class for dependencies
-        # FIXME - need a real dependency graph maker
         # remove myself, just in case.
         if struct in self.done:
             del self.done[struct]
-        # checks members dependencies in bases
-        for b in struct.bases:
-            depends.update((self.get_undeclared_type(m.type), None) for m in b.members)
-        depends.pop(None, None)
-        if len(depends) > 0:
-            log.debug("Generate %s DEPENDS for Bases %s", struct.name, depends)
-            for dep in depends:
-                self._generate(dep)
-
         # checks members dependencies
         # test_record_ordering head does not mean declared. _fields_ mean declared
         # CPOINTER members just require a class definition
@@ -648,9 +636,8 @@ class Generator:
             return
         log.debug("Head start for %s inline:%s", head.name, inline)
         for struct in head.struct.bases:
-            self._generate(struct.get_head())
-            # add dependencies
-            self.more[struct] = True
+            # a class cannot get fields once there is a class derived from it
+            self._generate(struct)
         basenames = [self.type_name(b) for b in head.struct.bases]
         if basenames:
             # method_names = [m.name for m in head.struct.members if type(m) is typedesc.Method]
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index c7b7705..023aa4b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -734,12 +734,7 @@ class CursorHandler(ClangHandler):
                 '_record_decl: %s is already registered with members',
                 name)
             return self.get_registered(name)
-        # CPP bases
         bases = []
-        for c in cursor.get_children():
-            if c.kind == CursorKind.CXX_BASE_SPECIFIER:  # noqa
-                bases.append(self.get_registered(self.get_unique_name(c)))
-                log.debug("got base class %s", c.displayname)
         size = cursor.type.get_size()
         align = cursor.type.get_align()
         if size == -2: #
@@ -800,6 +795,11 @@ class CursorHandler(ClangHandler):
                 # it was only declared until now
                 self.set_location(obj, cursor.get_definition())
                 self.set_comment(obj, cursor.get_definition())
+        # CPP bases, which the definition only has
+        for c in (cursor.get_definition() or cursor).get_children():
+            if c.kind == CursorKind.CXX_BASE_SPECIFIER:  # noqa
+                obj.bases.append(self.parse_cursor_type(c.type.get_canonical()))
+                log.debug("got base class %s", c.displayname)
         # capture members declaration
         members = []
         # Go and recurse through fields
-- 
2.43.0


From d3e150c8550768079153cf37683fe9c2c9b9366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 077/102] fix: take the bases of a class once

---
 ctypeslib/codegen/cursorhandler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 023aa4b..24611a6 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -796,10 +796,9 @@ class CursorHandler(ClangHandler):
                 self.set_location(obj, cursor.get_definition())
                 self.set_comment(obj, cursor.get_definition())
         # CPP bases, which the definition only has
-        for c in (cursor.get_definition() or cursor).get_children():
-            if c.kind == CursorKind.CXX_BASE_SPECIFIER:  # noqa
-                obj.bases.append(self.parse_cursor_type(c.type.get_canonical()))
-                log.debug("got base class %s", c.displayname)
+        obj.bases = [self.parse_cursor_type(c.type.get_canonical())
+                     for c in (cursor.get_definition() or cursor).get_children()
+                     if c.kind == CursorKind.CXX_BASE_SPECIFIER]
         # capture members declaration
         members = []
         # Go and recurse through fields
-- 
2.43.0


From b87f4c3598cff364175ea25c0db510ec5cff42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:10 +0000
Subject: [PATCH 078/102] fix: translate long chains of pointers between
 records

---
 ctypeslib/codegen/clangparser.py   | 19 +++++++++++++++++++
 ctypeslib/codegen/cursorhandler.py | 10 ++++++++++
 ctypeslib/codegen/typehandler.py   |  2 +-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 389997c..0bedc7e 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -86,6 +86,9 @@ class Clang_Parser:
         self.typekind_handler = typehandler.TypeHandler(self)
         self.__filter_location = None
         self.__processed_location = set()
+        # records that are pointed to, by records that are pointed to...
+        self.pointee_depth = 0
+        self.pending_records = []
 
     def init_parsing_options(self):
         """Set the Translation Unit to skip functions bodies per default."""
@@ -202,6 +205,8 @@ class Clang_Parser:
         # build stuff.
         try:
             stop_recurse = self.parse_cursor(node)
+            while self.pending_records:
+                self.parse_cursor(self.pending_records.pop(0))
             if node.location.file is not None:
                 filepath = os.path.abspath(node.location.file.name)
                 self.__processed_location.add(filepath)
@@ -336,6 +341,20 @@ typedef void* pointer_t;""",
         """Forward parsing calls to dedicated CursorKind Handlder"""
         return self.cursorkind_handler.parse_cursor(cursor)
 
+    def parse_pointee(self, cursor):
+        """Parses the declaration of what a pointer points to. At the end of a long chain of pointers
+        between records, the members of the record are parsed later."""
+        if self.pointee_depth >= 20:
+            obj = self.cursorkind_handler.declare_record(cursor)
+            if obj is not None:
+                self.pending_records.append(cursor)
+                return obj
+        self.pointee_depth += 1
+        try:
+            return self.parse_cursor(cursor)
+        finally:
+            self.pointee_depth -= 1
+
     def parse_cursor_type(self, _cursor_type):
         """Forward parsing calls to dedicated TypeKind Handlder"""
         return self.typekind_handler.parse_cursor_type(_cursor_type)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 24611a6..791234c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -717,6 +717,16 @@ class CursorHandler(ClangHandler):
         """
         return self._record_decl(cursor, typedesc.Union, num)
 
+    def declare_record(self, cursor):
+        """Registers the definition of a named record, without its members."""
+        if (cursor.kind not in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL)  # noqa
+                or not cursor.is_definition() or cursor.is_anonymous() or cursor.type.get_size() < 0):
+            return None
+        name = self.get_unique_name(cursor)
+        _output_type = typedesc.Union if cursor.kind == CursorKind.UNION_DECL else typedesc.Structure  # noqa
+        obj = _output_type(name, cursor.type.get_align(), None, [], cursor.type.get_size(), packed=False)
+        return self.register(name, obj)
+
     def _record_decl(self, cursor, _output_type, num=None):
         """
         Handles record type declaration.
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index a76e60b..162c738 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -151,7 +151,7 @@ class TypeHandler(ClangHandler):
                     'POINTER: %s type was not previously declared',
                     decl_name)
                 try:
-                    p_type = self.parse_cursor(decl)
+                    p_type = self.parser.parse_pointee(decl)
                 except InvalidDefinitionError as e:
                     # no declaration in source file. Fake a void *
                     p_type = typedesc.FundamentalType('None', 1, 1)
-- 
2.43.0


From fecf3d915c84271fba29f5ed3052584e2a45cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:03 +0000
Subject: [PATCH 079/102] fix: import the symbols of modules given with -m

---
 ctypeslib/codegen/codegenerator.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 453a9da..15d15fc 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -53,6 +53,8 @@ class Generator:
         # what record dependency were generated
         self.head_generated = set()
         self.body_generated = set()
+        # symbols of other modules that were imported
+        self.imported = set()
 
     # pylint: disable=method-hidden
     def enable_fundamental_type_wrappers(self):
@@ -941,6 +943,8 @@ class Generator:
         """ wraps execution of specific methods."""
         if item in self.done:
             return
+        if self._import_known_symbol(item):
+            return
         # verbose output with location.
         if self.generate_locations and item.location:
             print("# %s:%d" % item.location, file=self.stream)
@@ -955,6 +959,19 @@ class Generator:
         mth(item, *args)
         return
 
+    def _import_known_symbol(self, item):
+        """ A type that one of the modules given with -m has is imported instead of generated. """
+        decl = item.struct if isinstance(item, (typedesc.StructureHead, typedesc.StructureBody)) else item
+        if not isinstance(decl, (typedesc.Structure, typedesc.Union, typedesc.Typedef)):
+            return False
+        if decl.name not in self.known_symbols:
+            return False
+        self.done[item] = True
+        if decl.name not in self.imported:
+            self.imported.add(decl.name)
+            print("from %s import %s" % (self.known_symbols[decl.name], decl.name), file=self.imports)
+        return True
+
     def print_comment(self, item):
         if item.comment is None:
             return
-- 
2.43.0


From f1d2d44661537f23c2aa03f6291bae47b6f35cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:03 +0000
Subject: [PATCH 080/102] fix: emulated pointers to different types of the same
 name

---
 ctypeslib/data/pointer_type.tpl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index ff1f24b..daae31b 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -24,8 +24,9 @@ else:
             clsname = 'c_void'
         else:
             clsname = pointee.__name__
-        if clsname in ctypes._pointer_t_type_cache:
-            return ctypes._pointer_t_type_cache[clsname]
+        # different types may have the same name
+        if pointee in ctypes._pointer_t_type_cache:
+            return ctypes._pointer_t_type_cache[pointee]
         # make template
         class _T(_ctypes._SimpleCData,):
             _type_ = '__REPLACEMENT_TYPE_CHAR__'
@@ -39,6 +40,6 @@ else:
             def __init__(self, **args):
                 raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
-        ctypes._pointer_t_type_cache[clsname] = _class
+        ctypes._pointer_t_type_cache[pointee] = _class
         return _class
     FUNCTION_POINTER_T = POINTER_T
-- 
2.43.0


From 1f35e985a189e5739516c80ba8434de84a509b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:03 +0000
Subject: [PATCH 081/102] fix: the output file is utf-8 whatever the locale

---
 ctypeslib/clang2py.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 44e82b7..079c457 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -72,7 +72,9 @@ class Input:
             # stdin case
             if in_file == sys.stdin:
                 # pylint: disable-next=consider-using-with
-                _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
+                _stdin = tempfile.NamedTemporaryFile(
+                    mode="w", prefix="stdin", suffix=".c", delete=False, encoding="utf-8", errors="surrogateescape"
+                )
                 _stdin.write(in_file.read())
                 self._stdin.append(_stdin)
                 in_file = _stdin
@@ -97,8 +99,9 @@ class Output:
             self.stream = sys.stdout
             self.output_file = None
         else:
-            # pylint: disable-next=unspecified-encoding,consider-using-with
-            self.stream = open(options.output, "w")
+            # the generated code declares its encoding
+            # pylint: disable-next=consider-using-with
+            self.stream = open(options.output, "w", encoding="utf-8")
             self.output_file = self.stream
 
     def __enter__(self):
-- 
2.43.0


From b7f83559b974ec128962dfa3e451dbacb6b974af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 082/102] fix: emulated pointers have the size of the target's
 pointers

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 ctypeslib/data/pointer_type.tpl    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 15d15fc..c59dc81 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -80,9 +80,9 @@ class Generator:
             return "ctypes.POINTER"
         self.enable_pointer_type = lambda: "POINTER_T"
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
-        # assuming a LONG also has the same sizeof than a pointer.
+        # a LONG does not always have the same sizeof than a pointer.
         word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
-        word_type = self.parser.get_ctypes_name(TypeKind.ULONG)
+        word_type = "c_uint%d" % (word_size * 8)
         # pylint: disable=protected-access
         word_char = getattr(ctypes, word_type)._type_
         # replacing template values
diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index daae31b..63f7f1c 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -16,7 +16,7 @@ else:
     # to that if A == B, POINTER_T(A) == POINTER_T(B)
     ctypes._pointer_t_type_cache = {}
     def POINTER_T(pointee):
-        # a pointer should have the same length as LONG
+        # an integer with the length of a pointer
         fake_ptr_base_type = ctypes.__REPLACEMENT_TYPE__
         # specific case for c_void_p
         if pointee is None: # VOID pointer type. c_void_p.
-- 
2.43.0


From d4cae44cab9c5e24cea1bb86da4d6d2dd11b5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 083/102] fix: double has the size of float on some targets

---
 ctypeslib/codegen/clangparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 0bedc7e..d1f272e 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -310,10 +310,12 @@ typedef void* pointer_t;""",
         # 2015-01 reverse until better solution is found
         # the idea is that you cannot assume a c_double will be same format as a c_long_double.
         # at least this pass size TU
+        # on some targets double has the size of float
+        self.ctypes_typename[TypeKind.DOUBLE] = "c_float" if size1 == size0 else "c_double"
         if size1 != size2:
             self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_long_double_t"
         else:
-            self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_double"
+            self.ctypes_typename[TypeKind.LONGDOUBLE] = self.ctypes_typename[TypeKind.DOUBLE]
 
         self.ctypes_sizes[TypeKind.FLOAT] = size0
         self.ctypes_sizes[TypeKind.DOUBLE] = size1
-- 
2.43.0


From b4c4c811cdf1497ac4da698b6b49c96c0e0ddda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 084/102] fix: wchar_t of two bytes

---
 ctypeslib/codegen/clangparser.py   | 8 +++++++-
 ctypeslib/codegen/cursorhandler.py | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index d1f272e..139527e 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -1,5 +1,6 @@
 """clangparser - use clang to get preprocess a source code."""
 
+import ctypes
 import logging
 import os
 import collections
@@ -275,7 +276,8 @@ typedef long long longlong_t;
 typedef float float_t;
 typedef double double_t;
 typedef long double longdouble_t;
-typedef void* pointer_t;""",
+typedef void* pointer_t;
+typedef __WCHAR_TYPE__ wide_t;""",
             flags=_flags,
         )
         size = util.get_cursor(translation_unit, "short_t").type.get_size() * 8
@@ -326,6 +328,10 @@ typedef void* pointer_t;""",
         self.ctypes_sizes[TypeKind.POINTER] = size
         self.ctypes_sizes[TypeKind.NULLPTR] = size
 
+        # c_wchar has the size of the host's wchar_t
+        size = util.get_cursor(translation_unit, "wide_t").type.get_size()
+        self.ctypes_typename[TypeKind.WCHAR] = "c_wchar" if size == ctypes.sizeof(ctypes.c_wchar) else f"c_uint{size * 8:d}"
+
         log.debug(
             "ARCH sizes: long:%s longdouble:%s",
             self.ctypes_typename[TypeKind.LONG],
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 791234c..e798782 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -103,8 +103,9 @@ class CursorHandler(ClangHandler):
             if len(children) == 0:
                 return value
             literal = children[-1]
-        is_char = _ctype.kind in (TypeKind.CHAR_S, TypeKind.CHAR_U, TypeKind.UCHAR, TypeKind.WCHAR,  # noqa
-                                  TypeKind.CHAR16, TypeKind.CHAR32)  # noqa
+        is_char = (_ctype.kind in (TypeKind.CHAR_S, TypeKind.CHAR_U, TypeKind.UCHAR, TypeKind.WCHAR,  # noqa
+                                   TypeKind.CHAR32) and  # noqa
+                   self.get_ctypes_name(_ctype.kind) in ("c_char", "c_ubyte", "c_wchar"))
         if literal.kind == CursorKind.STRING_LITERAL:  # noqa
             return value
         if literal.kind == CursorKind.INTEGER_LITERAL and util.is_c_hexadecimal(value):  # noqa
-- 
2.43.0


From 89037f5688cde578889859c176eeaea69ee5d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 085/102] fix: docstrings of functions that the library lacks

---
 ctypeslib/codegen/codegenerator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index c59dc81..068fca0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -895,8 +895,6 @@ class Generator:
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
         print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
-        print("except AttributeError:", file=self.stream)
-        print("    pass", file=self.stream)
 
         if self.generate_docstrings:
 
@@ -917,7 +915,11 @@ class Generator:
                 ret=typeString(func.returns),
             )
             # the file name can be anything
-            print("%s.__doc__ = %r" % (func.name, doc), file=self.stream)
+            print("    %s.__doc__ = %r" % (func.name, doc), file=self.stream)
+
+        # the library can lack the function when it is loaded
+        print("except AttributeError:", file=self.stream)
+        print("    pass", file=self.stream)
 
         self.names.append(func.name)
         self._functiontypes += 1
-- 
2.43.0


From d9b8ad6c00bad15d83ef603fbf43079ceaf50115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 086/102] fix: compiler flags that are not for C

---
 ctypeslib/codegen/clangparser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 139527e..ea7164e 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -5,7 +5,7 @@ import logging
 import os
 import collections
 
-from clang.cindex import Index, TranslationUnit
+from clang.cindex import Index, TranslationUnit, TranslationUnitLoadError
 from clang.cindex import CursorKind, TypeKind
 
 from ctypeslib.codegen import cursorhandler
@@ -267,8 +267,7 @@ class Clang_Parser:
         architecture is not the same as local
         """
         # NOTE: one could also use the __SIZEOF_x__ MACROs to obtain sizes.
-        translation_unit = util.get_tu(
-            """
+        source = """
 typedef short short_t;
 typedef int int_t;
 typedef long long_t;
@@ -277,9 +276,12 @@ typedef float float_t;
 typedef double double_t;
 typedef long double longdouble_t;
 typedef void* pointer_t;
-typedef __WCHAR_TYPE__ wide_t;""",
-            flags=_flags,
-        )
+typedef __WCHAR_TYPE__ wide_t;"""
+        try:
+            translation_unit = util.get_tu(source, flags=_flags)
+        except TranslationUnitLoadError:
+            # flags like -std=c++17 are not for C
+            translation_unit = util.get_tu(source, lang="cpp", flags=_flags)
         size = util.get_cursor(translation_unit, "short_t").type.get_size() * 8
         self.ctypes_typename[TypeKind.SHORT] = f"c_int{size:d}"
         self.ctypes_typename[TypeKind.USHORT] = f"c_uint{size:d}"
-- 
2.43.0


From 97800808f7bb90d4343fabac9599d92b139fbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 087/102] fix: digit separators of C++14 and C23

---
 ctypeslib/codegen/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 104321c..f4e7b5d 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -168,6 +168,9 @@ def token_spelling(token):
 
 def from_c_number_literal(value):
     """Transforms the spelling of a C number into a python one, without its suffix."""
+    if re.match(r"^\.?\d", value):
+        # C++14 and C23 separate digits
+        value = value.replace("'", "")
     match = _c_integer_regex.match(value)
     if match:
         value = match.group(1)
-- 
2.43.0


From 6a2c22f8f58220ecf3e56164cd5b092f0b2b2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 088/102] fix: operators of C++ have no name in python

---
 ctypeslib/codegen/codegenerator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 068fca0..6fe0762 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -860,6 +860,10 @@ class Generator:
         return
 
     def Function(self, func):
+        if func.name.startswith("operator") and not func.name.isidentifier():
+            # the operators of C++ have no name in a library or in python
+            log.debug("No python name for %s", func.name)
+            return
         # FIXME: why do we call this ? it does nothing
         if self.generate_comments:
             self.print_comment(func)
-- 
2.43.0


From f9575884ba596bf824e230e8a7db6722dc07f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 089/102] fix: characters in the arrays of numbers of C++

---
 ctypeslib/codegen/cursorhandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e798782..9ffc588 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -85,7 +85,10 @@ class CursorHandler(ClangHandler):
     @log_entity
     def INIT_LIST_EXPR(self, cursor):  # noqa
         """Returns a list of literal values."""
-        values = [self._number_value(child.type, child, self.parse_cursor(child))
+        # in C++, the type of a child is the one that it is written with
+        _type = cursor.type.get_canonical()
+        _type = _type.element_type if self.is_array_type(_type) else None  # noqa
+        values = [self._number_value(_type or child.type, child, self.parse_cursor(child))
                   for child in list(cursor.get_children())]
         return values
 
-- 
2.43.0


From 98edb80c844062144f5a30c64bf647a9a2a53c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:14 +0000
Subject: [PATCH 090/102] fix: results of functions written with typeof

---
 ctypeslib/codegen/typehandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 162c738..3edcabe 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -1,6 +1,6 @@
 """Handler for Type nodes from the clang AST tree."""
 
-from clang.cindex import TypeKind
+from clang.cindex import CursorKind, TypeKind
 
 from ctypeslib.codegen import typedesc
 from ctypeslib.codegen.util import log_entity
@@ -267,6 +267,10 @@ class TypeHandler(ClangHandler):
         Returns the canonical type instead.
         """
         _decl = _cursor_type.get_declaration()
+        _type = _cursor_type.get_canonical()
+        if _decl.kind == CursorKind.NO_DECL_FOUND and not self.is_unexposed_type(_type):  # noqa
+            # typeof
+            return self.parse_cursor_type(_type)
         name = self.get_unique_name(_decl)  # _cursor)
         if self.is_registered(name):
             obj = self.get_registered(name)
-- 
2.43.0


From aefdc739b44579244515f88306d7ff006fcbd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:14 +0000
Subject: [PATCH 091/102] fix: alias templates of C++

---
 ctypeslib/codegen/typehandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 3edcabe..3fb29f1 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -102,6 +102,9 @@ class TypeHandler(ClangHandler):
         Handles elaborated types eg. enum return.
         """
         _decl = _cursor_type.get_declaration()
+        if _decl.kind in (CursorKind.NO_DECL_FOUND, CursorKind.TYPE_ALIAS_TEMPLATE_DECL):  # noqa
+            # the type that an alias template stands for
+            return self.parse_cursor_type(_cursor_type.get_canonical())
         name = self.get_unique_name(_decl)
         if self.is_registered(name):
             obj = self.get_registered(name)
-- 
2.43.0


From 76f502062b1106454413dd05853dfd1acc71a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:51 +0000
Subject: [PATCH 092/102] fix: unnamed types of namespaces

---
 ctypeslib/codegen/handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 43da976..1ab3d3b 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -147,9 +147,10 @@ class ClangHandler(object):
             name = ''
         if name == '':
             # if cursor.is_anonymous():
-            # a unnamed object at the root TU
+            # a unnamed object at the root TU, or in a namespace
             if (cursor.semantic_parent
-                and cursor.semantic_parent.kind == CursorKind.TRANSLATION_UNIT):
+                and (cursor.semantic_parent.kind == CursorKind.TRANSLATION_UNIT
+                     or cursor.semantic_parent.kind == CursorKind.NAMESPACE and cursor.kind != CursorKind.ENUM_DECL)):
                 name = self.make_python_name(cursor.get_usr())
                 log.debug('get_unique_name: root unnamed type kind %s',cursor.kind)
             elif cursor.kind in [CursorKind.STRUCT_DECL,CursorKind.UNION_DECL,
-- 
2.43.0


From 9cdc6cd0c72b951de054715391f477de598f3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:47 +0000
Subject: [PATCH 093/102] fix: arrays of variable length in prototypes

---
 ctypeslib/codegen/typehandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 3fb29f1..fc304a0 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -180,7 +180,7 @@ class TypeHandler(ClangHandler):
         # we need to get the canonical typedef, in some cases
         _type = _cursor_type.get_canonical()
         size = _type.get_array_size()
-        if size == -1 and _type.kind == TypeKind.INCOMPLETEARRAY:
+        if size == -1 and _type.kind in (TypeKind.INCOMPLETEARRAY, TypeKind.VARIABLEARRAY):  # noqa
             size = 0
             # FIXME: Incomplete Array handling at end of record.
             # https://gcc.gnu.org/onlinedocs/gcc/Zero-Length.html
-- 
2.43.0


From cf2eb8138f1a9b228776dfc6c31d02ac129c6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:56 +0000
Subject: [PATCH 094/102] fix: records that refer to themselves from their
 unnamed members

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9ffc588..5fa4dd9 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -857,7 +857,7 @@ class CursorHandler(ClangHandler):
         # by now, the type is registered.
         if not declared_instance:
             log.debug('_record_decl: %s was previously registered', name)
-        obj = self.get_registered(name)
+        # a reference to the record from its own members may have given it another name
         obj.members = members
         # obj.packed = packed
         # final fixup
-- 
2.43.0


From 1a6e26aac3bfb88201e3686ad77c7286d3fd1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:06 +0000
Subject: [PATCH 095/102] fix: arrays with more elements than half of the
 target's address space

---
 ctypeslib/codegen/typehandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index fc304a0..834e3c1 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -185,6 +185,9 @@ class TypeHandler(ClangHandler):
             # FIXME: Incomplete Array handling at end of record.
             # https://gcc.gnu.org/onlinedocs/gcc/Zero-Length.html
             # FIXME VARIABLEARRAY DEPENDENTSIZEDARRAY
+        elif size < 0 < _type.get_size():
+            # libclang reads the number of elements as a signed number, of the width of the target's size_t
+            size = _type.get_size() // _type.get_array_element_type().get_size()
         _array_type = _type.get_array_element_type()  # .get_canonical()
         if self.is_fundamental_type(_array_type):
             _subtype = self.parse_cursor_type(_array_type)
-- 
2.43.0


From 791db13880f05673f6d0b4d06f45a5d8428e4bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:35 +0000
Subject: [PATCH 096/102] fix: a library other than clang's in
 CLANG_LIBRARY_PATH

---
 ctypeslib/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/__init__.py b/ctypeslib/__init__.py
index 7774a27..9bddcf6 100644
--- a/ctypeslib/__init__.py
+++ b/ctypeslib/__init__.py
@@ -93,7 +93,8 @@ def __configure_clang_cindex():
                 cindex.Config.set_library_file(__library_path)
             # force-check that clang is configured properly
             clang_version()
-        except cindex.LibclangError:
+        except (cindex.LibclangError, AttributeError):
+            # not a library, or not the one of clang
             warnings.warn(f"Could not configure clang with library_path={__library_path}", RuntimeWarning)
             continue
         return __library_path
-- 
2.43.0


From 4e20d8244668df2983ffc44d746f5d8c9e505d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:35 +0000
Subject: [PATCH 097/102] fix: the clang library that the program has
 configured or loaded is kept

---
 ctypeslib/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ctypeslib/__init__.py b/ctypeslib/__init__.py
index 9bddcf6..3e6e492 100644
--- a/ctypeslib/__init__.py
+++ b/ctypeslib/__init__.py
@@ -76,6 +76,9 @@ def __configure_clang_cindex():
     Second we attempt to configure clang with a clang library version similar to the clang python package version
     Third we attempt to configure clang with any clang library we can find
     """
+    if cindex.Config.loaded:
+        # the program has used clang before, with the library of its choice
+        return cindex.conf.get_filename()
     # first, use environment variables set by user
     __libs = []
     __lib_path = os.environ.get('CLANG_LIBRARY_PATH')
@@ -84,10 +87,14 @@ def __configure_clang_cindex():
             warnings.warn("Filepath in CLANG_LIBRARY_PATH does not exist", RuntimeWarning)
         else:
             __libs.append(__lib_path)
+    # then, the choice of the program
+    __libs.extend(filter(None, [cindex.Config.library_file, cindex.Config.library_path]))
     __libs.extend(__find_clang_libraries())
     for __library_path in __libs:
         try:
             if os.path.isdir(__library_path):
+                # a file, from an earlier attempt, would be preferred
+                cindex.Config.library_file = None
                 cindex.Config.set_library_path(__library_path)
             else:
                 cindex.Config.set_library_file(__library_path)
-- 
2.43.0


From 20a2e67779b45385687cecfba1446c07dbce2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:35 +0000
Subject: [PATCH 098/102] fix: a percent sign in the path of the clang library

---
 ctypeslib/clang2py.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 079c457..58ed907 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -263,9 +263,11 @@ def _make_parser(cfg):
     parser.add_argument("-v", "--verbose", action="store_true", dest="verbose", help="verbose output", default=False)
 
     def version_string():
+        # argparse formats the string
+        filename = str(ctypeslib.__clang_library_filename).replace("%", "%%")  # pylint: disable=protected-access
         version = "versions - %(prog)s:" \
                   f"{ctypeslib.__version__} python-clang:{clang_py_version()} clang:{clang_version()} " \
-                  f"clang_filename:{ctypeslib.__clang_library_filename}"  # pylint: disable=protected-access
+                  f"clang_filename:{filename}"
         return version
 
     parser.add_argument("-V", "--version", action="version", version=version_string())
-- 
2.43.0


From 7914d71b8bedd0aeee89044e7d0e457351b10772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:18 +0000
Subject: [PATCH 099/102] fix: initial values that a call of a constant
 function or builtin gives

---
 ctypeslib/codegen/cursorhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 5fa4dd9..5b0ff54 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -404,8 +404,8 @@ class CursorHandler(ClangHandler):
             if _type.size < len(init_value):
                 _type.size = len(init_value)
         elif init_value == []:
-            # catch case.
-            init_value = None
+            # catch case; the compiler may know the result of a call
+            init_value = self._number_value(_ctype, cursor, None)
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
             kind = None
-- 
2.43.0


From 9c4bb48d7476df38faa9bb3e690a5c80507f2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:18 +0000
Subject: [PATCH 100/102] fix: infinities in initialiser lists, and nan, broke
 the module

---
 ctypeslib/codegen/codegenerator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 6fe0762..fbdd570 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -9,6 +9,7 @@ from __future__ import unicode_literals
 import collections
 import ctypes
 import logging
+import math
 import os
 import pkgutil
 import re
@@ -402,7 +403,7 @@ class Generator:
                     # a wide string
                     init_value = repr(tp.init)
                 else:
-                    init_value = "[%s]" % ",".join([str(x) for x in tp.init])
+                    init_value = "[%s]" % ",".join([self._number_literal(x) if isinstance(x, float) else str(x) for x in tp.init])
                 # we do NOT want Variable to be described as ctypes object
                 # when we can have a python abstraction for them.
                 # init_value_type = self.type_name(tp.typ, False)
@@ -450,8 +451,8 @@ class Generator:
             else:
                 # integers
                 init_value = 0
-        if isinstance(init_value, float) and init_value in (float("inf"), float("-inf")):
-            init_value = "float('%s')" % init_value
+        if isinstance(init_value, (float, list)):
+            init_value = self._number_literal(init_value)
         #
         # the type may be declared later, or filtered out
         self._generate(tp.typ)
@@ -460,6 +461,15 @@ class Generator:
         #
         self.names.append(tp.name)
 
+    def _number_literal(self, value):
+        """The python expression of a number, or of a list of initial values"""
+        if isinstance(value, list):
+            return "[%s]" % ", ".join(self._number_literal(v) for v in value)
+        if isinstance(value, float) and not math.isfinite(value):
+            # no literals
+            return "float('%s')" % value
+        return repr(value)
+
     _enumvalues = 0
 
     def EnumValue(self, tp):
-- 
2.43.0


From 7d7218bac0c16d5e3b033d06f912481b1ec553da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:14 +0000
Subject: [PATCH 101/102] fix: initial values from offsetof,
 __builtin_choose_expr and the like

---
 ctypeslib/codegen/cursorhandler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 5b0ff54..a339b87 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -104,7 +104,10 @@ class CursorHandler(ClangHandler):
             # the initialiser is the last child
             children = [c for c in literal.get_children() if c.kind.is_expression()]
             if len(children) == 0:
-                return value
+                if literal.kind == CursorKind.VAR_DECL:  # noqa
+                    return value
+                # offsetof has no operand that is an expression
+                break
             literal = children[-1]
         is_char = (_ctype.kind in (TypeKind.CHAR_S, TypeKind.CHAR_U, TypeKind.UCHAR, TypeKind.WCHAR,  # noqa
                                    TypeKind.CHAR32) and  # noqa
@@ -473,8 +476,8 @@ class CursorHandler(ClangHandler):
             elif len(init_value) == 1:
                 init_value = init_value[0]
             else:
-                log.error('_get_var_decl_init_value_single: Unhandled case')
-                assert len(init_value) <= 1
+                # the compiler knows which one is the value
+                init_value = None
         # elif child.kind == CursorKind.STRING_LITERAL:
         #     _v = self._literal_handling(child)
         #     init_value = (child.kind, _v)
-- 
2.43.0


From 674f0002ec769ba6eba20139c5bf24a040050cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:40 +0000
Subject: [PATCH 102/102] fix: the order of the source files does not decide
 whether a record is complete

---
 ctypeslib/codegen/clangparser.py   | 5 +++++
 ctypeslib/codegen/cursorhandler.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index ea7164e..2f175ee 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -87,6 +87,8 @@ class Clang_Parser:
         self.typekind_handler = typehandler.TypeHandler(self)
         self.__filter_location = None
         self.__processed_location = set()
+        # the definitions of records in includes that were left out
+        self.left_out = {}
         # records that are pointed to, by records that are pointed to...
         self.pointee_depth = 0
         self.pending_records = []
@@ -193,6 +195,9 @@ class Clang_Parser:
         # dont even parse includes.
         # FIXME: go back on dependencies ?
         if self.is_filtered(node) and not self.is_missing_definition(node):
+            if node.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL) and node.is_definition():
+                # another source file may only declare it
+                self.left_out.setdefault(node.get_usr(), node)
             return None
         # find and call the handler for this element
         log.debug(
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index a339b87..520095d 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -759,6 +759,9 @@ class CursorHandler(ClangHandler):
             if self.is_registered(name):
                 # declared in another file already
                 return self.get_registered(name)
+            if cursor.get_usr() in self.parser.left_out:
+                # defined in an include of another file
+                return self._record_decl(self.parser.left_out[cursor.get_usr()], _output_type, num)
             # produce an empty structure declaration
             size = align = 0
             log.debug('_record_decl: name: %s CXTypeLayoutError_Incomplete', name)
-- 
2.43.0

