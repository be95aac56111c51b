From 80838355e630d06ed5e1549d6f541e14c5673809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 01/56] fix: give every declared variable of a scope its own
 name

Asking for 'foo' twice hands out 'foo2'; asking for 'foo2' afterwards (or
before) handed out the same name again.
---
 pybindgen/typehandlers/base.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 528d15c..f66e3ab 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -469,16 +469,7 @@ class DeclarationsScope(object):
         :param initializer: optional, value to initialize the variable with
         :param array: optional, array size specifiction, e.g. '[]', or '[100]'
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
-            varname = "%s%i" % (name, num)
+        varname = self.reserve_variable(name)
         decl = join_ctype_and_name(type_, varname)
         if array is not None:
             decl += array
@@ -498,11 +489,16 @@ class DeclarationsScope(object):
         except KeyError:
             num = 0
         num += 1
-        self.declared_variables[name] = num
         if num == 1:
             varname = name
         else:
             varname = "%s%i" % (name, num)
+            # the numbered name may itself have been requested before
+            while varname in self.declared_variables:
+                num += 1
+                varname = "%s%i" % (name, num)
+            self.declared_variables[varname] = 1
+        self.declared_variables[name] = num
         return varname
 
     def get_code_sink(self):
-- 
2.43.0


From bc76118c74d38ec1f4fde973ea29972b5a558a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 02/56] fix: read 'T**' as two pointer tokens and stop const at
 '&&' when normalising types

'char**' and 'char * *' normalised to different strings, 'const char**' moved
the const across both pointers, and TypeTraits did not see a pointer.
---
 pybindgen/typehandlers/ctypeparser/__init__.py  | 2 +-
 pybindgen/typehandlers/ctypeparser/tokenizer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 5c05ebc..06e804b 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -51,7 +51,7 @@ class CType(object):
                         other_token = self.tokens[new_pos]
                         if isinstance(other_token, CType):
                             continue
-                        if other_token.name in ['*', '&']:
+                        if other_token.name in ['*', '&', '&&']:
                             self.tokens.insert(new_pos, token)
                             break
                     else:
diff --git a/pybindgen/typehandlers/ctypeparser/tokenizer.py b/pybindgen/typehandlers/ctypeparser/tokenizer.py
index 34748ca..3d4ce83 100644
--- a/pybindgen/typehandlers/ctypeparser/tokenizer.py
+++ b/pybindgen/typehandlers/ctypeparser/tokenizer.py
@@ -183,7 +183,7 @@ def GetTokens(source):
             token_type = SYNTAX
             i += 1
             new_ch = source[i]
-            if new_ch == c:
+            if new_ch == c and c != '*': # there is no '**' token in C++
                 i += 1
             elif c == '-' and new_ch == '>':
                 i += 1
-- 
2.43.0


From 0ae62955605e80454bf8216ab9f6c240a1de497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 03/56] fix: type lookup tries every declared alias, not only
 the first one

With A aliased as B and B aliased as C, looking up B failed when only C was
registered, and of several aliases of one type only the last was known.
---
 pybindgen/typehandlers/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index f66e3ab..e37f0d3 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1386,18 +1386,18 @@ class TypeMatcher(object):
                 aliases_to_try.append(self._type_aliases[name])
             except KeyError:
                 pass
-            try:
-                aliases_to_try.append(self._type_aliases_rev[name])
-            except KeyError:
-                pass
+            aliases_to_try.extend(self._type_aliases_rev.get(name, ()))
+            already_tried.append(name)
             for alias in aliases_to_try:
                 if alias in already_tried:
                     continue
-                already_tried.append(name)
                 #if 'Time' in name or 'Time' in alias:
                 #    import sys
                 #    print >> sys.stderr, "**** trying name %r in place of %r" % (alias, name)
-                return self._raw_lookup_with_alias_support_recursive(alias, already_tried)
+                try:
+                    return self._raw_lookup_with_alias_support_recursive(alias, already_tried)
+                except KeyError:
+                    continue
             raise KeyError
 
     def lookup(self, name):
@@ -1453,7 +1453,8 @@ class TypeMatcher(object):
         from_type_name_normalized = str(ctypeparser.TypeTraits(from_type_name).ctype)
         to_type_name_normalized = str(ctypeparser.TypeTraits(to_type_name).ctype)
         self._type_aliases[to_type_name_normalized] = from_type_name_normalized
-        self._type_aliases_rev[from_type_name_normalized] = to_type_name_normalized
+        # most recently declared alias first
+        self._type_aliases_rev.setdefault(from_type_name_normalized, []).insert(0, to_type_name_normalized)
 
 return_type_matcher = TypeMatcher()
 param_type_matcher = TypeMatcher()
-- 
2.43.0


From a934f88dea4d81a35cac5b7486e47cdeb4f465db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 04/56] fix: parse output reference arguments of overrides into
 the variable's address

The int&, unsigned&, short&, char&, float& and double& handlers passed the
value instead of its address to PyArg_ParseTuple.  The array code of
float* and unsigned int* mentioned an undeclared name or a literal
'%(elem)s' and a function that does not exist, and an optional int*
took the address of the wrong variable.
---
 pybindgen/typehandlers/doubletype.py |  2 +-
 pybindgen/typehandlers/floattype.py  |  4 ++--
 pybindgen/typehandlers/inttype.py    | 21 +++++++++++----------
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 6c589ed..5f39e3d 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -68,7 +68,7 @@ class DoubleRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('d', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("d", [self.value], self.name)
+            wrapper.parse_params.add_parameter("d", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d51711f..8334f08 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -82,7 +82,7 @@ class FloatPtrParam(Parameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyFloat_Check(element)',
+                        '!PyFloat_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i floats");'
                         % (self.name, self.array_length))
                 wrapper.before_call.write_code("%(name)s[%(idx)s] = (float) PyFloat_AsDouble(%(elem)s);" % vars())
@@ -113,7 +113,7 @@ class FloatRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('f', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("f", [self.value], self.name)
+            wrapper.parse_params.add_parameter("f", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index d8f953e..29ac010 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -91,10 +91,11 @@ class UnsignedIntPtrParam(PointerParameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyNumber_Check(%(elem)s)',
+                        '!PyNumber_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i ints / longs");'
                         % (self.name, self.array_length))
-                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedInt(%(elem)s);" % vars())
+                wrapper.before_call.write_code("%(name)s[%(idx)s] = (unsigned int) PyLong_AsUnsignedLong(%(elem)s);" % vars())
+                wrapper.before_call.write_error_check('PyErr_Occurred()')
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
@@ -169,14 +170,14 @@ class IntPtrParam(PointerParameter):
         if optional:
             name_int = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name+"_int")
             name_obj = wrapper.declarations.declare_variable("PyObject*", self.name+"_obj", "NULL")
-            name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr")
+            name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr", "NULL")
             wrapper.call_params.append(name_ptr)
             if self.direction & self.DIRECTION_IN:
                 wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
                 wrapper.before_call.write_code(
                     "if (%(name_obj)s) {\n"
                     "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
-                    "    %(name_ptr)s = &%(name_obj)s;\n"
+                    "    %(name_ptr)s = &%(name_int)s;\n"
                     "} else {\n"
                     "    %(name_ptr)s = NULL;\n"
                     "}\n"
@@ -212,7 +213,7 @@ class IntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('i', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("i", [self.value], self.name)
+            wrapper.parse_params.add_parameter("i", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -233,7 +234,7 @@ class UnsignedIntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('I', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("I", [self.value], self.name)
+            wrapper.parse_params.add_parameter("I", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -311,7 +312,7 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", [self.value], self.name)
+            wrapper.parse_params.add_parameter("H", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -351,7 +352,7 @@ class Int16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('h', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("h", [self.value], self.name)
+            wrapper.parse_params.add_parameter("h", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -389,7 +390,7 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            wrapper.parse_params.add_parameter("B", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -446,7 +447,7 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            wrapper.parse_params.add_parameter("b", ['&'+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
-- 
2.43.0


From a8acb137d37d473f05a81558dfb04b6dc2be50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 05/56] fix: build sequence slot indices with the Py_ssize_t
 unit

Py_ssize_t indices were passed to Py_BuildValue as int, cutting them to 32 bits.
---
 pybindgen/pytypeobject.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index e045cd2..6e8512c 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -354,7 +354,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
@@ -370,7 +370,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -394,7 +394,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(ii)", py_i1, py_i2);
+    args = Py_BuildValue("(nn)", py_i1, py_i2);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -416,7 +416,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iO)", py_i, py_val);
+    args = Py_BuildValue("(nO)", py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -451,7 +451,7 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iiO)", py_i1, py_i2, py_vals);
+    args = Py_BuildValue("(nnO)", py_i1, py_i2, py_vals);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
@@ -525,7 +525,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
-- 
2.43.0


From e0045b13ac46486db2c7ce256280e2f28b84a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 06/56] fix: refuse out-of-range 8- and 16-bit integers instead
 of truncating them

Negative numbers passed to unsigned parameters, too small numbers passed to
int16_t/int8_t parameters, 128 returned for int8_t and anything stored through
the reference and pointer parameters was wrapped around silently; -128 was
refused although it fits.
---
 pybindgen/typehandlers/inttype.py | 51 +++++++++++++++++++------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 29ac010..72474c8 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -10,6 +10,19 @@ from .base import ReturnValue, Parameter, PointerParameter, PointerReturnValue,
      ReverseWrapperBase, ForwardWrapperBase, TypeConfigurationError, NotSupportedError
 
 
+def parse_small_int(wrapper, code_block, target, param_name, low, high):
+    """
+    Parse a Python integer into a C variable narrower than int; numbers
+    outside the range [low, high] of the C type raise ValueError
+    instead of being silently truncated.
+    """
+    tmp_var = wrapper.declarations.declare_variable("int", "tmp")
+    wrapper.parse_params.add_parameter('i', ['&'+tmp_var], param_name)
+    code_block.write_error_check('%s > %s || %s < %s' % (tmp_var, high, tmp_var, low),
+                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+    code_block.write_code("%s = %s;" % (target, tmp_var))
+
+
 class IntParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -257,7 +270,7 @@ class UInt16Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xffff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xffff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -298,7 +311,7 @@ class UInt16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xffff' % name,
+        wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -312,13 +325,13 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", ['&'+self.value], self.name)
+            parse_small_int(wrapper, wrapper.after_call, self.value, self.name, 0, 0xffff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
+            parse_small_int(wrapper, wrapper.before_call, name, self.name, 0, 0xffff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("H", [name])
 
@@ -337,7 +350,7 @@ class Int16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7fff' % name,
+        wrapper.before_call.write_error_check('%s > 0x7fff || %s < -32768' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -376,7 +389,7 @@ class UInt8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xff' % name,
+        wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -390,13 +403,13 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", ['&'+self.value], self.name)
+            parse_small_int(wrapper, wrapper.after_call, self.value, self.name, 0, 0xff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
+            parse_small_int(wrapper, wrapper.before_call, name, self.name, 0, 0xff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -412,7 +425,7 @@ class UInt8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -433,7 +446,7 @@ class Int8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7f' % name,
+        wrapper.before_call.write_error_check('%s > 0x7f || %s < -128' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -447,13 +460,13 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", ['&'+self.value], self.name)
+            parse_small_int(wrapper, wrapper.after_call, self.value, self.name, -128, 0x7f)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            parse_small_int(wrapper, wrapper.before_call, name, self.name, -128, 0x7f)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -467,7 +480,7 @@ class Int8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 128 || %s < -127' % (tmp_var, tmp_var),
+        wrapper.after_call.write_error_check('%s > 127 || %s < -128' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -696,13 +709,13 @@ class Int8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            parse_small_int(wrapper, wrapper.after_call, '*'+self.value, self.name, -128, 0x7f)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            parse_small_int(wrapper, wrapper.before_call, name, self.name, -128, 0x7f)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -725,13 +738,13 @@ class UInt8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            parse_small_int(wrapper, wrapper.after_call, '*'+self.value, self.name, 0, 0xff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('uint8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
+            parse_small_int(wrapper, wrapper.before_call, name, self.name, 0, 0xff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("B", [name])
 
@@ -753,12 +766,12 @@ class UnsignedInt16PtrParam(PointerParameter):
             wrapper.build_params.add_parameter('H', ['*'+self.value])
 
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter('H', [self.value], self.name)
+            parse_small_int(wrapper, wrapper.after_call, '*'+self.value, self.name, 0, 0xffff)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name, self.default_value)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
+            parse_small_int(wrapper, wrapper.before_call, name, self.name, 0, 0xffff)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter('H', [name])
-- 
2.43.0


From fd6cdbfc5ab6fd2e78588b9c0c31ce980332101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 07/56] fix: keep parameters apart from the other variables of
 generated functions

A parameter called 'self', 'return_exception' or (with a reference return
value) 'retval' redeclared a C parameter or variable of the wrapper, a
container return value with a parameter called 'retval' failed an assertion,
and virtual method proxies declared variables with the names of their own
C++ parameters.
---
 pybindgen/container.py         | 11 ---------
 pybindgen/typehandlers/base.py | 42 ++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a7966db..72c69fd 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -835,20 +835,9 @@ class ContainerReturnValue(ContainerReturnValueBase):
         """See ReturnValue.get_c_error_return"""
         return "return %s();" % (self.container_type.full_name,)
 
-    def _get_noref_ctype(self):
-        # if the type has foo const &, get back foo
-        traits = TypeTraits(str(self.type_traits.ctype_no_const_no_ref))
-        ctype_no_const_no_ref = traits.ctype_no_const_no_ref
-        return ctype_no_const_no_ref
-
     def convert_c_to_python(self, wrapper):
         """see ReturnValue.convert_c_to_python"""
 
-        ctype_no_const_no_ref = self._get_noref_ctype()
-        retval = wrapper.declarations.declare_variable(
-            str(ctype_no_const_no_ref), 'retval')
-        assert retval == 'retval'
-
         py_name = wrapper.declarations.declare_variable(
             self.container_type.pystruct+'*', 'py_'+self.container_type.name)
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index e37f0d3..9455087 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -9,6 +9,7 @@ and base interfaces for wrapper generators.
 from pybindgen.typehandlers import codesink
 import warnings
 from pybindgen.typehandlers import ctypeparser
+from copy import copy
 import sys
 
 PY3 = (sys.version_info[0] >= 3)
@@ -555,12 +556,13 @@ class ReverseWrapperBase(object):
         assert all([isinstance(param, Parameter) for param in parameters])
 
         self.return_value = return_value
-        self.parameters = parameters
+        self.parameters = self._rename_reserved_parameters(parameters)
 
         if error_return is None:
             error_return = return_value.get_c_error_return()
         self.error_return = error_return
         self.declarations = DeclarationsScope()
+        self._reserve_parameter_names()
         self.before_call = CodeBlock(error_return, self.declarations)
         self.after_call = CodeBlock(error_return, self.declarations,
                                     predecessor=self.before_call)
@@ -568,6 +570,31 @@ class ReverseWrapperBase(object):
         self.parse_params = ParseTupleParameters()
         self._generate_gil_code()
 
+    @staticmethod
+    def _rename_reserved_parameters(parameters):
+        """
+        The C++ parameters of a reverse wrapper live next to its 'retval'
+        and 'py_retval' variables; parameters with those names are
+        given another one.
+        """
+        names = [param.name for param in parameters]
+        result = []
+        for param in parameters:
+            if param.name in ('retval', 'py_retval'):
+                name = param.name
+                while name in names:
+                    name += '_'
+                names.append(name)
+                param = copy(param)
+                param.name = name
+                param.value = name
+            result.append(param)
+        return result
+
+    def _reserve_parameter_names(self):
+        for param in self.parameters:
+            self.declarations.reserve_variable(param.name)
+
     def set_error_return(self, error_return):
         self.error_return = error_return
         self.before_call.error_return = error_return
@@ -575,6 +602,7 @@ class ReverseWrapperBase(object):
 
     def reset_code_generation_state(self):
         self.declarations.clear()
+        self._reserve_parameter_names()
         self.before_call.clear()
         self.after_call.clear()
         self.build_params.clear()
@@ -786,13 +814,17 @@ class ForwardWrapperBase(object):
         if self.return_value is not None or self.HAVE_RETURN_VALUE:
             self.declarations.declare_variable('PyObject*', 'py_retval')
         if (not self.no_c_retval and (self.return_value is not None or self.HAVE_RETURN_VALUE)
-            and self.return_value.ctype != 'void'
-            and not self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR
-            and not self.return_value.NO_RETVAL_DECL):
-            self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref), 'retval')
+            and self.return_value.ctype != 'void'):
+            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
+                # declared together with the call
+                self.declarations.reserve_variable('retval')
+            else:
+                self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref), 'retval')
 
+        self.declarations.reserve_variable('self')
         self.declarations.reserve_variable('args')
         self.declarations.reserve_variable('kwargs')
+        self.declarations.reserve_variable('return_exception')
 
     def reset_code_generation_state(self):
         self.declarations.clear()
-- 
2.43.0


From 5d9f6d6ca63443dd5b174922cdef804b0c6834c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 08/56] fix: a NULL pointer result does not skip the rest of
 the wrapper

When a wrapped function returned a NULL class pointer (or an empty shared
pointer) the wrapper returned None at once: output parameters were dropped,
cleanups were not run and post-call custodians were not registered.
---
 pybindgen/cppclass.py               | 35 ++++++++++++++++++++---------
 pybindgen/typehandlers/smart_ptr.py | 17 ++++++++------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9364adc..c5e03c0 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3766,26 +3766,29 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
 
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, the result is None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    %s = NULL;\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "} else {" % (value, py_name))
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, self.caller_owns_return,
                                     self.reference_existing_object,
                                     type_is_pointer=True,
                                     caller_manages_return=self.caller_manages_return,
                                     free_after_copy=self.free_after_copy)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
-        wrapper.build_params.add_parameter("N", [py_name], prepend=True)
+        wrapper.build_params.add_parameter(
+            "N", ["(%s ? (PyObject *) %s : Py_None)" % (py_name, py_name)], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("delete retval;")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s* %ss" % (self.cpp_class.name,wrapper.function_name))
@@ -3873,9 +3876,12 @@ def scan_custodians_and_wards(wrapper):
 
 
 
-def _add_ward(code_block, custodian, ward):
+def _add_ward(code_block, custodian, ward, custodian_can_be_null=False):
     wards = code_block.declare_variable(
-        'PyObject*', 'wards')
+        'PyObject*', 'wards', custodian_can_be_null and 'NULL' or None)
+    if custodian_can_be_null:
+        code_block.write_code("if (%s) {" % custodian)
+        code_block.indent()
     code_block.write_code(
         "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
         % vars())
@@ -3888,7 +3894,12 @@ def _add_ward(code_block, custodian, ward):
     code_block.write_code(
         "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
         "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
+    if custodian_can_be_null:
+        code_block.unindent()
+        code_block.write_code("}")
+        code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
+    else:
+        code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
@@ -3915,6 +3926,8 @@ def implement_parameter_custodians_postcall(wrapper):
         if postcall:
             _add_ward(wrapper.after_call,
                       _get_custodian_or_ward(wrapper, custodian),
-                      _get_custodian_or_ward(wrapper, ward))
+                      _get_custodian_or_ward(wrapper, ward),
+                      # a NULL returned by C++ has no wrapper
+                      custodian_can_be_null=(custodian == -1))
 
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c0e661b..118a654 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -330,24 +330,27 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
         
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, the result is None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    %s = NULL;\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "} else {" % (value, py_name))
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, caller_owns_return=True,
                                     reference_existing_object=False,
                                     type_is_pointer=True)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
-        wrapper.build_params.add_parameter("N", [py_name], prepend=True)
+        wrapper.build_params.add_parameter(
+            "N", ["(%s ? (PyObject *) %s : Py_None)" % (py_name, py_name)], prepend=True)
     
 
     def convert_python_to_c(self, wrapper):
-- 
2.43.0


From 804d1107460539c8feab703f49c80d37df30fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 09/56] fix: refuse pointer return values without an ownership
 policy

free_after_copy defaulted to False, so the test for a missing policy
never succeeded; and free_after_copy crashed for methods, which have no
function_name.
---
 pybindgen/cppclass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index c5e03c0..9e46f46 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3685,7 +3685,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
 
     def __init__(self, ctype, caller_owns_return=None, custodian=None,
                  is_const=False, reference_existing_object=None,
-                 return_internal_reference=None, caller_manages_return=True, free_after_copy=False):
+                 return_internal_reference=None, caller_manages_return=True, free_after_copy=None):
         """
         :param ctype: C type, normally 'MyClass*'
         :param caller_owns_return: if true, ownership of the object pointer
@@ -3751,7 +3751,8 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
 
         if self.caller_owns_return is None\
                 and self.free_after_copy is None \
-                and self.reference_existing_object is None:
+                and self.reference_existing_object is None \
+                and self.caller_manages_return:
             raise TypeConfigurationError("Either caller_owns_return or self.reference_existing_object must be given")
 
 
@@ -3791,7 +3792,6 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
             "N", ["(%s ? (PyObject *) %s : Py_None)" % (py_name, py_name)], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("delete retval;")
-            wrapper.after_call.add_cleanup_code("// free_after_copy for %s* %ss" % (self.cpp_class.name,wrapper.function_name))
 
 
     def convert_python_to_c(self, wrapper):
-- 
2.43.0


From 081493e3e07fbec24b72eee0e008e946a3eab0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 10/56] fix: refuse self as custodian or ward where there is no
 self

Functions and static methods emitted code using an undeclared 'self', and
asking for a pre-call relation involving the return value raised NameError.
---
 pybindgen/cppclass.py  | 9 +++++++++
 pybindgen/cppmethod.py | 2 +-
 pybindgen/function.py  | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9e46f46..8183311 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3902,11 +3902,20 @@ def _add_ward(code_block, custodian, ward, custodian_can_be_null=False):
         code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
 
 
+def _has_self(wrapper):
+    "is there a 'self' in the generated wrapper function"
+    if getattr(wrapper, 'is_static', False):
+        return False
+    return getattr(wrapper, 'self_parameter_pystruct', wrapper) is not None
+
+
 def _get_custodian_or_ward(wrapper, num):
     if num == -1:
         assert wrapper.return_value.py_name is not None
         return "((PyObject *) %s)" % wrapper.return_value.py_name
     elif num == 0:
+        if not _has_self(wrapper):
+            raise TypeConfigurationError("custodian/ward 0 (self) used in a wrapper without self")
         return "((PyObject *) self)"
     else:
         assert wrapper.parameters[num-1].py_name is not None
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 06263fa..55d7c23 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -7,7 +7,7 @@ import traceback
 from copy import copy
 
 from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
-    join_ctype_and_name, CodeGenerationError
+    join_ctype_and_name, CodeGenerationError, TypeConfigurationError
 from pybindgen.typehandlers.base import ReturnValue, Parameter
 from pybindgen.typehandlers import codesink
 from pybindgen import overloading
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6d4069b..89cc41c 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -13,7 +13,7 @@ else:
 
 from copy import copy
 
-from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue
+from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue, TypeConfigurationError
 from pybindgen.typehandlers import codesink
 from pybindgen.cppexception import CppException
 
-- 
2.43.0


From 08844f9bc7ca74e33cdca144cc66805a5f831335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 11/56] fix: hold the GIL on the error paths of wrappers that
 release it

---
 pybindgen/cppmethod.py         |  7 +++++++
 pybindgen/function.py          |  1 +
 pybindgen/typehandlers/base.py | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 55d7c23..49403aa 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -301,6 +301,7 @@ class CppMethod(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_reacquire_gil(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
@@ -665,6 +666,7 @@ class CppConstructor(ForwardWrapperBase):
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params),
                                          class_.helper_class.name)
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+            self.write_reacquire_gil(self.before_call)
             self.before_call.write_code('((%s*) self->obj)->set_pyobj((PyObject *)self);'
                                         % class_.helper_class.name)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
@@ -680,6 +682,7 @@ class CppConstructor(ForwardWrapperBase):
                     raise CodeGenerationError("private/protected constructor")
                 class_.get_construct_name()
             except CodeGenerationError:
+                self.write_reacquire_gil(self.before_call)
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
                 self.before_call.write_code('return -1;')
@@ -696,6 +699,7 @@ class CppConstructor(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_reacquire_gil(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return -1;')
@@ -944,6 +948,7 @@ class CppVirtualMethodParentCaller(CppMethod):
         method = '%s->%s__parent_caller' % (helper, self.method_name)
         self.before_call.write_error_check(
             "%s == NULL" % helper,
+            self.get_reacquire_gil_code() +
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
@@ -1094,6 +1099,8 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
                     pass
                 else:
                     self.set_error_return('''
+if (PyEval_ThreadsInitialized())
+    (void) PyGILState_Ensure();
 PyErr_Print();
 Py_FatalError("Error detected, but parent virtual is pure virtual or private virtual, "
               "and return is a class without trival constructor");''')
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 89cc41c..0432d37 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -214,6 +214,7 @@ class Function(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_reacquire_gil(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 9455087..764b2e0 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -798,6 +798,7 @@ class ForwardWrapperBase(object):
         self.force_parse = force_parse
         self.meth_flags = []
         self.unblock_threads = unblock_threads
+        self.py_thread_state = None # name of the variable, when unblocking threads
         self.no_c_retval = no_c_retval
         self.overload_index = None
         self.deprecated = False
@@ -885,6 +886,25 @@ class ForwardWrapperBase(object):
         code_sink.writeln('}')
 
 
+    def get_reacquire_gil_code(self):
+        """
+        Code that takes back the GIL, if the wrapper has released it
+        around the C/C++ call (unblock_threads).  To be used by what,
+        inside generate_call(), needs the Python C API.
+        """
+        if not self.unblock_threads:
+            return ''
+        return ("if (%(state)s) {\n"
+                "    PyEval_RestoreThread(%(state)s);\n"
+                "    %(state)s = NULL;\n"
+                "}\n" % dict(state=self.py_thread_state))
+
+    def write_reacquire_gil(self, code_block):
+        "Write get_reacquire_gil_code() to a code block"
+        code = self.get_reacquire_gil_code()
+        if code:
+            code_block.write_code(code)
+
     def generate_body(self, code_sink, gen_call_params=()):
         """Generate the wrapper function body
         code_sink -- a CodeSink object that will receive the code
@@ -892,6 +912,7 @@ class ForwardWrapperBase(object):
 
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
+            self.py_thread_state = py_thread_state
             self.after_call.write_code(
                 "\nif (%s)\n"
                 "     PyEval_RestoreThread(%s);\n" % (py_thread_state, py_thread_state))
-- 
2.43.0


From f9c7b92b191869a3ca6fafdcef3a53dded94f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 12/56] fix: give functions added as methods a name of their
 own class and method

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8183311..5c6444d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1433,13 +1433,14 @@ public:
         if isinstance(method, CppMethod):
             name = method.mangled_name
         elif isinstance(method, function.Function):
-            name = method.custom_name
+            name = method.mangled_name
             assert isinstance(method.parameters[0], CppClassParameterBase)
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
                 (self.full_name, method.parameters[0].cpp_class.full_name)
             method.parameters[0].take_value_from_python_self = True
             method.module = self.module
+            method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, name)
             method.is_virtual = False
             method.is_pure_virtual = False
             method.self_parameter_pystruct = self.pystruct
-- 
2.43.0


From 849aa188ed0a321b4cb0b88271d3de99a8e8f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 13/56] fix: cloned wrappers keep exceptions, threading,
 deprecation and custodians

---
 pybindgen/cppmethod.py | 6 +++++-
 pybindgen/function.py  | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 49403aa..0931d3b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -220,7 +220,11 @@ class CppMethod(ForwardWrapperBase):
                          is_pure_virtual=self.is_pure_virtual,
                          is_const=self.is_const,
                          visibility=self.visibility,
-                         custom_name=self.custom_name)
+                         custom_name=self.custom_name,
+                         deprecated=self.deprecated,
+                         throw=self.throw,
+                         unblock_threads=self.unblock_threads)
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         meth._class = self._class
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 0432d37..ba09862 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -118,10 +118,15 @@ class Function(ForwardWrapperBase):
                         self.return_value,
                         [copy(param) for param in self.parameters],
                         docstring=self.docstring,
-                        custom_name=self.custom_name)
+                        custom_name=self.custom_name,
+                        template_parameters=self.template_parameters,
+                        foreign_cpp_namespace=self.foreign_cpp_namespace,
+                        deprecated=self.deprecated,
+                        unblock_threads=self.unblock_threads)
         func._module = self._module
         func.wrapper_base_name = self.wrapper_base_name
         func.wrapper_actual_name = self.wrapper_actual_name
+        func.self_parameter_pystruct = self.self_parameter_pystruct
         func.throw = list(self.throw)
         func.custodians_and_wards = list(self.custodians_and_wards)
 
-- 
2.43.0


From 0164200e9b2b7124e5b056adfa37e7c2a53c6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 14/56] fix: methods made of functions get their own self in
 classes with several parents

---
 pybindgen/cppclass.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5c6444d..4942b31 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1424,6 +1424,21 @@ public:
         else:
             code_sink.writeln("\nextern pybindgen::TypeMap %s;\n" % self.typeid_map_name)
 
+    def _setup_function_as_method(self, method):
+        """
+        Prepares a function wrapper for being generated as method of this
+        class, its first parameter taking the value of the python self.
+        """
+        method.parameters[0].cpp_class = self
+        method.parameters[0].take_value_from_python_self = True
+        method.module = self.module
+        method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, method.mangled_name)
+        method.is_virtual = False
+        method.is_pure_virtual = False
+        method.self_parameter_pystruct = self.pystruct
+        method.visibility = 'public'
+        method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
+
     def _add_method_obj(self, method):
         """
         Add a method object to the class.  For internal use.
@@ -1438,14 +1453,7 @@ public:
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
                 (self.full_name, method.parameters[0].cpp_class.full_name)
-            method.parameters[0].take_value_from_python_self = True
-            method.module = self.module
-            method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, name)
-            method.is_virtual = False
-            method.is_pure_virtual = False
-            method.self_parameter_pystruct = self.pystruct
-            method.visibility = 'public'
-            method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
+            self._setup_function_as_method(method)
         else:
             raise TypeError
 
@@ -2348,7 +2356,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                     # the method may have been re-defined as private in our class
                     private = False
                     for leaf_wrapper in self.nonpublic_methods:
-                        if leaf_wrapper.matches_signature(parent_wrapper):
+                        if isinstance(leaf_wrapper, CppMethod) and leaf_wrapper.matches_signature(parent_wrapper):
                             private = True
                             break
                     if private:
@@ -2362,7 +2370,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                         pass
                     else:
                         for leaf_wrapper in overload.wrappers:
-                            if leaf_wrapper.matches_signature(parent_wrapper):
+                            if isinstance(leaf_wrapper, CppMethod) and leaf_wrapper.matches_signature(parent_wrapper):
                                 already_wrapped = True
                                 break
                     if already_wrapped:
@@ -2371,6 +2379,8 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
                     wrapper = parent_wrapper.clone()
                     wrapper.original_class = base
                     wrapper.class_ = self
+                    if isinstance(wrapper, function.Function):
+                        self._setup_function_as_method(wrapper)
                     overload.add(wrapper)
 
         method_defs = []
-- 
2.43.0


From 8bd7bb562f7d4c4b27de4aef839631ae5de5591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 15/56] fix: compare C++ names, not python names, to tell which
 method overrides which

---
 pybindgen/cppmethod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 0931d3b..c066046 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -181,7 +181,12 @@ class CppMethod(ForwardWrapperBase):
 
 
     def matches_signature(self, other):
-        if self.mangled_name != other.mangled_name:
+        # it is the C++ names that matter here, not the python ones
+        if not isinstance(other, CppMethod):
+            return False
+        if self.method_name != other.method_name:
+            return False
+        if list(self.template_parameters) != list(other.template_parameters):
             return False
         if len(self.parameters) != len(other.parameters):
             return False
-- 
2.43.0


From 12b2ef5ee1789ff5fc82aa0253779d35f89cf3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 16/56] fix: accept Parameter objects in methods that cannot be
 wrapped

---
 pybindgen/cppmethod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index c066046..4482c9a 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -519,8 +519,8 @@ class DummyParameter(Parameter):
         parameter.  In case it's a tuple, it is assumed to be a retval
         spec (\\*args, \\*\\*kwargs).
         """
-        if isinstance(arg, ReturnValue):
-            super(DummyParameter, self).__init__(arg.ctype)
+        if isinstance(arg, Parameter):
+            super(DummyParameter, self).__init__(arg.ctype, arg.name)
         else:
             args, kwargs = utils.parse_param_spec(arg)
             super(DummyParameter, self).__init__(args[0], args[1])
-- 
2.43.0


From 4dc527effedd88dc026362f04c754d9f7d2b11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 17/56] fix: make every character of a mangled name part of an
 identifier

---
 pybindgen/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index af04804..602d110 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -1,4 +1,5 @@
 
+import re
 import sys
 PY3 = (sys.version_info[0] >= 3)
 
@@ -155,6 +156,8 @@ def mangle_name(name):
     s = s.replace(' ', '_').replace('&', '__amp__').replace('*', '__star__')
     s = s.replace(':', '_')
     s = s.replace('(', '_lp_').replace(')', '_rp_')
+    # whatever else cannot be part of an identifier, such as in 'Array< int [-1] >'
+    s = re.sub(r'[^0-9A-Za-z_]', lambda match: '_x%02x_' % ord(match.group(0)), s)
     return s
 
 
-- 
2.43.0


From d248fd99b39c9657c164b6a718af46207ef03c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 18/56] fix: wrappers of protected methods keep exceptions,
 threading, deprecation and custodians

---
 pybindgen/cppmethod.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 4482c9a..f20169c 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -306,16 +306,20 @@ class CppMethod(ForwardWrapperBase):
                            )))
 
         if self.throw:
-            for exc in self.throw:
-                self.before_call.unindent()
-                self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
-                self.before_call.indent()
-                self.write_reacquire_gil(self.before_call)
-                self.before_call.write_cleanup()
-                exc.write_convert_to_python(self.before_call, 'exc')
-                self.before_call.write_code('return NULL;')
+            self._write_catch_blocks()
+
+    def _write_catch_blocks(self):
+        "ends the try block, converting each declared C++ exception to python"
+        for exc in self.throw:
             self.before_call.unindent()
-            self.before_call.write_code('}')
+            self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
+            self.before_call.indent()
+            self.write_reacquire_gil(self.before_call)
+            self.before_call.write_cleanup()
+            exc.write_convert_to_python(self.before_call, 'exc')
+            self.before_call.write_code('return NULL;')
+        self.before_call.unindent()
+        self.before_call.write_code('}')
 
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
@@ -894,10 +898,15 @@ class CppVirtualMethodParentCaller(CppMethod):
     """
 
     def __init__(self, method, unblock_threads=None):
+        if unblock_threads is None:
+            unblock_threads = method.unblock_threads
         super(CppVirtualMethodParentCaller, self).__init__(
-            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads)
+            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
+            deprecated=method.deprecated, throw=method.throw)
         #self.static_decl = False
         self.method = method
+        # shared, because relations may still be added to the method
+        self.custodians_and_wards = method.custodians_and_wards
 
     def get_class(self):
         return self.method.class_
@@ -961,6 +970,10 @@ class CppVirtualMethodParentCaller(CppMethod):
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
 
+        if self.throw:
+            self.before_call.write_code('try\n{')
+            self.before_call.indent()
+
         if self.return_value.ctype == 'void':
             self.before_call.write_code(
                 '%s(%s);' %
@@ -975,6 +988,9 @@ class CppVirtualMethodParentCaller(CppMethod):
                     'retval = %s(%s);' %
                     (method, ", ".join(self.call_params)))
 
+        if self.throw:
+            self._write_catch_blocks()
+
     def get_py_method_def(self, method_name=None):
         "Get the PyMethodDef entry suitable for this method"
 
-- 
2.43.0


From 7cf38cf1c2a0620dd2b9e4f0b1eb6d552905fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 19/56] fix: release the object of an output class reference on
 every error exit

---
 pybindgen/cppclass.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 4942b31..142984b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3143,9 +3143,9 @@ class CppClassRefParameter(CppClassParameterBase):
 
             self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
             if self.cpp_class.allow_subclassing:
-                wrapper.after_call.write_code(
+                wrapper.before_call.write_code(
                     "%s->inst_dict = NULL;" % (self.py_name,))
-            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
 
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
@@ -3155,8 +3155,11 @@ class CppClassRefParameter(CppClassParameterBase):
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              '')
+            ## the wrapper is released on every exit; a successful call
+            ## hands a reference of its own to the caller
+            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
             wrapper.call_params.append('*%s->obj' % (self.py_name,))
-            wrapper.build_params.add_parameter("N", [self.py_name])
+            wrapper.build_params.add_parameter("O", [self.py_name])
 
         ## well, personally I think inout here doesn't make much sense
         ## (it's just plain confusing), but might as well support it..
-- 
2.43.0


From 1d0b98e43e2f95d82d9b869389b5a0ed93023c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 20/56] fix: float parameters honour their default value

---
 pybindgen/typehandlers/floattype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index 8334f08..a76355b 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -17,8 +17,8 @@ class FloatParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name)
-        wrapper.parse_params.add_parameter('f', ['&'+name], self.value)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name, self.default_value)
+        wrapper.parse_params.add_parameter('f', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.call_params.append(name)
 
 
-- 
2.43.0


From 97c81207ba6a86c56f588849f3bcc07416e2ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:43 +0000
Subject: [PATCH 21/56] fix: keep the caught C++ exception apart from a
 parameter of the same name

---
 pybindgen/cppmethod.py | 10 ++++++----
 pybindgen/function.py  |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index f20169c..208fb7d 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -310,13 +310,14 @@ class CppMethod(ForwardWrapperBase):
 
     def _write_catch_blocks(self):
         "ends the try block, converting each declared C++ exception to python"
+        exc_name = self.declarations.reserve_variable('exc')
         for exc in self.throw:
             self.before_call.unindent()
-            self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
+            self.before_call.write_code('} catch (%s const &%s) {' % (exc.full_name, exc_name))
             self.before_call.indent()
             self.write_reacquire_gil(self.before_call)
             self.before_call.write_cleanup()
-            exc.write_convert_to_python(self.before_call, 'exc')
+            exc.write_convert_to_python(self.before_call, exc_name)
             self.before_call.write_code('return NULL;')
         self.before_call.unindent()
         self.before_call.write_code('}')
@@ -708,13 +709,14 @@ class CppConstructor(ForwardWrapperBase):
             self.before_call.write_code("}")
 
         if self.throw:
+            exc_name = self.declarations.reserve_variable('exc')
             for exc in self.throw:
                 self.before_call.unindent()
-                self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
+                self.before_call.write_code('} catch (%s const &%s) {' % (exc.full_name, exc_name))
                 self.before_call.indent()
                 self.write_reacquire_gil(self.before_call)
                 self.before_call.write_cleanup()
-                exc.write_convert_to_python(self.before_call, 'exc')
+                exc.write_convert_to_python(self.before_call, exc_name)
                 self.before_call.write_code('return -1;')
             self.before_call.unindent()
             self.before_call.write_code('}')
diff --git a/pybindgen/function.py b/pybindgen/function.py
index ba09862..f4ad220 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -215,13 +215,14 @@ class Function(ForwardWrapperBase):
                                               ", ".join(self.call_params)))
 
         if self.throw:
+            exc_name = self.declarations.reserve_variable('exc')
             for exc in self.throw:
                 self.before_call.unindent()
-                self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
+                self.before_call.write_code('} catch (%s const &%s) {' % (exc.full_name, exc_name))
                 self.before_call.indent()
                 self.write_reacquire_gil(self.before_call)
                 self.before_call.write_cleanup()
-                exc.write_convert_to_python(self.before_call, 'exc')
+                exc.write_convert_to_python(self.before_call, exc_name)
                 self.before_call.write_code('return NULL;')
             self.before_call.unindent()
             self.before_call.write_code('}')
-- 
2.43.0


From 7a38dedac6ff7fe1f5b5e93e1d0405ed13d35075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 22/56] fix: put the return value before the output parameters
 for every return type

---
 pybindgen/container.py               |  3 ++-
 pybindgen/cppclass.py                |  6 +++---
 pybindgen/typehandlers/smart_ptr.py  |  2 +-
 pybindgen/typehandlers/stringtype.py | 10 +++++-----
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 72c69fd..5207748 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -855,7 +855,8 @@ class ContainerReturnValue(ContainerReturnValueBase):
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
         assert retval == 'retval'
-        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value])
+        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value],
+                                           prepend=True)
 
 
 ## end
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 142984b..8a5fe11 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3294,7 +3294,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3375,7 +3375,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3813,7 +3813,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 118a654..fd629a1 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -358,7 +358,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d98a42a..b3ff828 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -202,7 +202,7 @@ class CharReturn(ReturnValue):
         wrapper.parse_params.add_parameter("c", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value])
+        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value], prepend=True)
 
 
 class CStringReturn(PointerReturnValue):
@@ -217,10 +217,10 @@ class CStringReturn(PointerReturnValue):
         return "return NULL;"
 
     def convert_python_to_c(self, wrapper):
-        wrapper.parse_params.add_parameter("s", ['&'+self.value])
+        wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("s", [self.value])
+        wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
@@ -236,7 +236,7 @@ class StdStringReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
         len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
-        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_])
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
             "%s = std::string(%s, %s);" % (self.value, ptr, len_))
 
@@ -392,7 +392,7 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr])
+        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
         wrapper.after_call.write_code(
             "%s = Glib::ustring(%s);" % (self.value, ptr))
 
-- 
2.43.0


From 13348505eaca0090b2bff1f8fb1f66c85b3113de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 23/56] fix: a deprecation warning turned into an error ends an
 overloaded call

The check of PyErr_Warn used the error return of argument parsing, so an
overload whose arguments had been accepted was reported as refusing them:
the next overload was tried, or a TypeError raised.
---
 pybindgen/typehandlers/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 764b2e0..42cf8eb 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -931,7 +931,12 @@ class ForwardWrapperBase(object):
                 msg = self.deprecated
             else:
                 msg = "Deprecated"
+            # the arguments were accepted: a warning turned into an error ends the
+            # call, it does not make an overload refuse its arguments
+            parse_error_return = self.before_call.error_return
+            self.before_call.error_return = self.after_call.error_return
             self.before_call.write_error_check( 'PyErr_Warn(PyExc_DeprecationWarning, (char *) "%s")' % msg)
+            self.before_call.error_return = parse_error_return
 
         self._before_call_hook()
 
-- 
2.43.0


From 0a2895f41d00de2c318511df110b8119ed5de187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 24/56] fix: the type name of a class with a custom name is the
 custom name

---
 pybindgen/cppclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8a5fe11..b18c6d0 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2232,10 +2232,11 @@ typedef struct {
 
         if self.outer_class is None:
             mod_path = self._module.get_module_path()
-            mod_path.append(self.mangled_name)
+            mod_path.append(self.get_python_name())
             dict_.setdefault("tp_name", '.'.join(mod_path))
         else:
-            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.name))
+            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'],
+                                                        self.get_python_name()))
 
         ## tp_call support
         try:
-- 
2.43.0


From 659e2ef8026cfa04c137ef0f5a851c1b9b6c3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 25/56] fix: a missing or None parameter is not used as
 custodian

---
 pybindgen/cppclass.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index b18c6d0..51d4157 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3891,11 +3891,11 @@ def scan_custodians_and_wards(wrapper):
 
 
 
-def _add_ward(code_block, custodian, ward, custodian_can_be_null=False):
+def _add_ward(code_block, custodian, ward, condition=None):
     wards = code_block.declare_variable(
-        'PyObject*', 'wards', custodian_can_be_null and 'NULL' or None)
-    if custodian_can_be_null:
-        code_block.write_code("if (%s) {" % custodian)
+        'PyObject*', 'wards', condition and 'NULL' or None)
+    if condition:
+        code_block.write_code("if (%s) {" % condition)
         code_block.indent()
     code_block.write_code(
         "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
@@ -3909,7 +3909,7 @@ def _add_ward(code_block, custodian, ward, custodian_can_be_null=False):
     code_block.write_code(
         "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
         "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    if custodian_can_be_null:
+    if condition:
         code_block.unindent()
         code_block.write_code("}")
         code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
@@ -3937,12 +3937,26 @@ def _get_custodian_or_ward(wrapper, num):
         return "((PyObject *) %s)" % wrapper.parameters[num-1].py_name
 
 
+def _get_custodian_condition(wrapper, num):
+    "C condition for the custodian to exist, or None if it always does"
+    if num == 0:
+        return None
+    py_name = _get_custodian_or_ward(wrapper, num)
+    if num == -1:
+        return py_name # a NULL returned by C++ has no wrapper
+    param = wrapper.parameters[num-1]
+    if param.default_value is None and not getattr(param, 'null_ok', False):
+        return None
+    return "%s && %s != Py_None" % (py_name, py_name)
+
+
 def implement_parameter_custodians_precall(wrapper):
     for custodian, ward, postcall in wrapper.custodians_and_wards:
         if not postcall:
             _add_ward(wrapper.before_call,
                       _get_custodian_or_ward(wrapper, custodian),
-                      _get_custodian_or_ward(wrapper, ward))
+                      _get_custodian_or_ward(wrapper, ward),
+                      _get_custodian_condition(wrapper, custodian))
 
 
 def implement_parameter_custodians_postcall(wrapper):
@@ -3951,7 +3965,6 @@ def implement_parameter_custodians_postcall(wrapper):
             _add_ward(wrapper.after_call,
                       _get_custodian_or_ward(wrapper, custodian),
                       _get_custodian_or_ward(wrapper, ward),
-                      # a NULL returned by C++ has no wrapper
-                      custodian_can_be_null=(custodian == -1))
+                      _get_custodian_condition(wrapper, custodian))
 
 
-- 
2.43.0


From 31597cc3569a073d4e92395301523c920aa9e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 26/56] fix: deleting an attribute raises TypeError instead of
 crashing

---
 pybindgen/cppattribute.py       | 4 ++++
 pybindgen/cppcustomattribute.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index f2c0006..cf2b746 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -144,6 +144,8 @@ class CppInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check('value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "cannot delete attribute");')
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
@@ -218,6 +220,8 @@ class CppStaticAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check('value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "cannot delete attribute");')
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index a504551..cf87910 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -75,6 +75,8 @@ class CppCustomInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check('value == NULL',
+            'PyErr_SetString(PyExc_TypeError, "cannot delete attribute");')
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
-- 
2.43.0


From cbe3a408114f6827108caf1d7239e20372bbf8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 27/56] fix: a container is left alone when its conversion from
 a list fails

---
 pybindgen/container.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 5207748..fddc881 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -539,15 +539,16 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
+        %(CTYPE)s items;
         Py_ssize_t size = PyList_Size(arg);
         for (Py_ssize_t i = 0; i < size; i++) {
             %(ITEM_CTYPE)s item;
             if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            items.%(ADD_VALUE)s(item);
         }
+        *container = items;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
@@ -571,7 +572,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
+        %(CTYPE)s items;
         Py_ssize_t size = PyList_Size(arg);
         for (Py_ssize_t i = 0; i < size; i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
@@ -586,8 +587,9 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            items.%(ADD_VALUE)s(item);
         }
+        *container = items;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
-- 
2.43.0


From 269926ab6e083749a7617ab9725675e020ca8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 28/56] fix: an attribute without getter and setter is left out
 of the attribute table

---
 pybindgen/cppattribute.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index cf2b746..7144178 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -401,8 +401,13 @@ class PyGetSetDef(object):
                 else:
                     setter_name = setter.c_function_name
             assert name not in getsets
+            if getter_name == 'NULL' and setter_name == 'NULL':
+                continue # neither accessor could be generated
             getsets[name] = (getter_name, setter_name, custom_name)
-        
+
+        if not getsets:
+            return '0'
+
         code_sink.writeln("static PyGetSetDef %s[] = {" % self.cname)
         code_sink.indent()
         for name, (getter_c_name, setter_c_name, custom_name) in getsets.items():
-- 
2.43.0


From 0cc03c6962d905d279541806d1b1ab4fee667d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 29/56] fix: attributes that share one value type object read
 their own member

---
 pybindgen/cppattribute.py       | 13 +++++++++----
 pybindgen/cppcustomattribute.py | 10 ++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 7144178..ad3b5bc 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -57,9 +57,9 @@ class CppInstanceAttributeGetter(PyGetter):
         self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
         if self.getter is None:
-            value_type.value = "self->obj->%s" % self.attribute_name
+            self.c_value = "self->obj->%s" % self.attribute_name
         else:
-            value_type.value = "self->obj->%s()" % self.getter
+            self.c_value = "self->obj->%s()" % self.getter
 
     def generate_call(self):
         "virtual method implementation; do not call"
@@ -69,6 +69,8 @@ class CppInstanceAttributeGetter(PyGetter):
         """
         :param code_sink: a CodeSink instance that will receive the generated code
         """
+        # several attributes may share the value type object
+        self.return_value.value = self.c_value
         tmp_sink = codesink.MemoryCodeSink()
         self.generate_body(tmp_sink)
         code_sink.writeln("static PyObject* %s(%s *self, void * PYBINDGEN_UNUSED(closure))"
@@ -95,7 +97,7 @@ class CppStaticAttributeGetter(PyGetter):
         self.attribute_name = attribute_name
         self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
-        value_type.value = "%s::%s" % (self.class_.full_name, self.attribute_name)
+        self.c_value = "%s::%s" % (self.class_.full_name, self.attribute_name)
 
     def generate_call(self):
         "virtual method implementation; do not call"
@@ -105,6 +107,8 @@ class CppStaticAttributeGetter(PyGetter):
         """
         :param code_sink: a CodeSink instance that will receive the generated code
         """
+        # several attributes may share the value type object
+        self.return_value.value = self.c_value
         tmp_sink = codesink.MemoryCodeSink()
         self.generate_body(tmp_sink)
         code_sink.writeln("static PyObject* %s(PyObject * PYBINDGEN_UNUSED(obj),"
@@ -211,7 +215,7 @@ class CppStaticAttributeSetter(PySetter):
         self.attribute_name = attribute_name
         self.c_function_name = "_wrap_%s__set_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
-        value_type.value =  "%s::%s" % (self.class_.full_name, self.attribute_name)
+        self.c_value =  "%s::%s" % (self.class_.full_name, self.attribute_name)
         value_type.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
 
     def generate(self, code_sink):
@@ -225,6 +229,7 @@ class CppStaticAttributeSetter(PySetter):
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
+        self.return_value.value = self.c_value
         self.return_value.convert_python_to_c(self)
         parse_tuple_params = ['py_retval']
         params = self.parse_params.get_parameters()
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index cf87910..dd8f399 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -22,13 +22,13 @@ class CppCustomInstanceAttributeGetter(PyGetter):
         self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
         if template_parameters == []:
-            value_type.value = "%s(*((%s *)self)->obj)" % (self.getter, self.class_.pystruct)
+            self.c_value = "%s(*((%s *)self)->obj)" % (self.getter, self.class_.pystruct)
         else:
-            value_type.value = "%s<%s" % (self.getter, template_parameters[0])
+            self.c_value = "%s<%s" % (self.getter, template_parameters[0])
             if len(template_parameters) > 1:
                 for x in template_parameters[1:]:
-                    value_type.value += ", %s " % x
-            value_type.value += ">(*((%s *)self)->obj)" % self.class_.pystruct
+                    self.c_value += ", %s " % x
+            self.c_value += ">(*((%s *)self)->obj)" % self.class_.pystruct
 
     def generate_call(self):
         "virtual method implementation; do not call"
@@ -38,6 +38,8 @@ class CppCustomInstanceAttributeGetter(PyGetter):
         """
         :param code_sink: a CodeSink instance that will receive the generated code
         """
+        # several attributes may share the value type object
+        self.return_value.value = self.c_value
         tmp_sink = codesink.MemoryCodeSink()
         self.generate_body(tmp_sink)
         code_sink.writeln("static PyObject* %s(%s *self, void * PYBINDGEN_UNUSED(closure))"
-- 
2.43.0


From 662708eb0093461cbdcb224a46276ccb17bf7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 30/56] fix: wrappers of virtual methods use the mangled name
 and honour the custom name

---
 pybindgen/cppclass.py  |  2 +-
 pybindgen/cppmethod.py | 27 ++++++++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 51d4157..cf4b4c8 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -316,7 +316,7 @@ class CppHelperClass(object):
         """Add a new CppVirtualMethodParentCaller object to this helper class"""
         assert isinstance(parent_caller, CppVirtualMethodParentCaller)
 
-        name = parent_caller.method_name
+        name = parent_caller.mangled_name
         try:
             overload = self.virtual_parent_callers[name]
         except KeyError:
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 208fb7d..98f7e61 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -173,7 +173,7 @@ class CppMethod(ForwardWrapperBase):
     def set_helper_class(self, helper_class):
         "Set the C++ helper class, which is used for overriding virtual methods"
         self._helper_class = helper_class
-        self.wrapper_base_name = "%s::_wrap_%s" % (self._helper_class.name, self.method_name)
+        self.wrapper_base_name = "%s::_wrap_%s" % (self._helper_class.name, self.mangled_name)
     def get_helper_class(self):
         "Get the C++ helper class, which is used for overriding virtual methods"
         return self._helper_class
@@ -904,7 +904,8 @@ class CppVirtualMethodParentCaller(CppMethod):
             unblock_threads = method.unblock_threads
         super(CppVirtualMethodParentCaller, self).__init__(
             method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
-            deprecated=method.deprecated, throw=method.throw)
+            deprecated=method.deprecated, throw=method.throw,
+            custom_name=method.custom_name)
         #self.static_decl = False
         self.method = method
         # shared, because relations may still be added to the method
@@ -941,13 +942,17 @@ class CppVirtualMethodParentCaller(CppMethod):
         code_sink.writeln('static %s %s(%s);' % (self.wrapper_return, name, ', '.join(self.wrapper_args)))
         self.reset_code_generation_state()
 
+    def _get_parent_caller_name(self):
+        "name of the helper class method that calls the parent class method"
+        return '%s__parent_caller' % utils.get_mangled_name(self.method_name, ())
+
     def generate_parent_caller_method(self, code_sink):
         ## generate a '%s__parent_caller' method (static methods
         ## cannot "conquer" 'protected' access type, only regular
         ## instance methods).
-        code_sink.writeln('inline %s %s__parent_caller(%s)' % (
+        code_sink.writeln('inline %s %s(%s)' % (
                 self.return_value.ctype,
-                self.method_name,
+                self._get_parent_caller_name(),
                 ', '.join([join_ctype_and_name(param.ctype, param.name) for param in self.parameters])
                 ))
         if self.return_value.ctype == 'void':
@@ -965,7 +970,7 @@ class CppVirtualMethodParentCaller(CppMethod):
             type_=('%s*' % self._helper_class.name),
             name='helper',
             initializer=("dynamic_cast< %s* >(self->obj)" %  self._helper_class.name))
-        method = '%s->%s__parent_caller' % (helper, self.method_name)
+        method = '%s->%s' % (helper, self._get_parent_caller_name())
         self.before_call.write_error_check(
             "%s == NULL" % helper,
             self.get_reacquire_gil_code() +
@@ -1001,7 +1006,7 @@ class CppVirtualMethodParentCaller(CppMethod):
             (self.wrapper_actual_name, self.wrapper_base_name)
         assert self._helper_class is not None
         if method_name is None:
-            method_name = self.method_name
+            method_name = self.mangled_name
         flags = self.get_py_method_def_flags()
         return "{(char *) \"%s\", (PyCFunction) %s, %s, %s }," % \
                (method_name,
@@ -1048,7 +1053,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
     def set_helper_class(self, helper_class):
         "Set the C++ helper class, which is used for overriding virtual methods"
         self._helper_class = helper_class
-        self.wrapper_base_name = "_wrap_%s" % self.method_name
+        self.wrapper_base_name = "_wrap_%s" % self.method.mangled_name
     def get_helper_class(self):
         "Get the C++ helper class, which is used for overriding virtual methods"
         return self._helper_class
@@ -1058,9 +1063,9 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
     def generate_python_call(self):
         """code to call the python method"""
         if settings._get_deprecated_virtuals():
-            params = ['m_pyself', '(char *) "_%s"' % self.method_name]
+            params = ['m_pyself', '(char *) "_%s"' % self.method.mangled_name]
         else:
-            params = ['m_pyself', '(char *) "%s"' % self.method_name]
+            params = ['m_pyself', '(char *) "%s"' % self.method.mangled_name]
         build_params = self.build_params.get_parameters()
         if build_params[0][0] == '"':
             build_params[0] = '(char *) ' + build_params[0]
@@ -1102,10 +1107,10 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         py_method = self.declarations.declare_variable('PyObject*', 'py_method')
         if settings._get_deprecated_virtuals():
             self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "_%s"); PyErr_Clear();'
-                                        % (py_method, self.method_name))
+                                        % (py_method, self.method.mangled_name))
         else:
             self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "%s"); PyErr_Clear();'
-                                        % (py_method, self.method_name))
+                                        % (py_method, self.method.mangled_name))
         self.before_call.add_cleanup_code('Py_XDECREF(%s);' % py_method)
 
         self.before_call.write_code(
-- 
2.43.0


From b3fca2389a8f1aefcb73a9f3d332097edd4b0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 31/56] fix: a virtual method that cannot be wrapped is
 recorded when it returns nothing or is only declared pure virtual

---
 pybindgen/cppclass.py  | 2 +-
 pybindgen/cppmethod.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cf4b4c8..bece2f2 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1561,7 +1561,7 @@ public:
             try:
                 meth = CppMethod(*args, **kwargs)
             except utils.SkipWrapper:
-                if kwargs.get('is_virtual', False):
+                if kwargs.get('is_virtual', False) or kwargs.get('is_pure_virtual', False):
                     ## if the method was supposed to be virtual, this
                     ## is a very important fact that needs to be
                     ## recorded in the class, even if the method is
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 98f7e61..2d64985 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -500,6 +500,8 @@ class DummyReturnValue(ReturnValue):
         """
         if isinstance(arg, ReturnValue):
             super(DummyReturnValue, self).__init__(arg.ctype)
+        elif arg is None:
+            super(DummyReturnValue, self).__init__('void')
         else:
             args, kwargs = utils.parse_retval_spec(arg)
             super(DummyReturnValue, self).__init__(args[0])
-- 
2.43.0


From 3743e34d995fd18ec8976d1ac04a0ce1ab8a6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 32/56] fix: a sequence or call slot is left empty when its
 method cannot be wrapped

---
 pybindgen/cppclass.py    | 6 +++---
 pybindgen/overloading.py | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index bece2f2..305726a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2177,7 +2177,7 @@ typedef struct {
         self_converter = root_module.generate_python_to_c_type_converter(self.ThisClassReturn(self.full_name), code_sink)
 
         def try_wrap_sequence_method(py_name, slot_name):
-            if py_name in self.methods:
+            if py_name in self.methods and self.methods[py_name].wrapper_actual_name:
                 numwraps = len(self.methods[py_name].wrappers)
                 some_wrapper_is_function = max([isinstance(x, function.Function) for x in self.methods[py_name].wrappers])
                 meth_wrapper_actual_name = self.methods[py_name].wrapper_actual_name
@@ -2200,9 +2200,9 @@ typedef struct {
         return '&' + sequence_methods_var_name
 
     def have_sequence_methods(self):
-        """Determine if this object has sequence methods registered."""
+        """Determine if this object has sequence methods registered (and generated)."""
         for x in self.valid_sequence_methods:
-            if x in self.methods:
+            if x in self.methods and self.methods[x].wrapper_actual_name:
                 return True
         return False
 
diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index dc7bcef..975f538 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -195,6 +195,7 @@ class OverloadedWrapper(object):
             ## if all wrappers did not generate, then the overload
             ## aggregator wrapper should not be generated either..
             if not delegate_wrappers:
+                self.wrapper_actual_name = None
                 raise utils.SkipWrapper
 
             ## Generate the 'main wrapper' that calls the other ones
-- 
2.43.0


From e129dcc10351381173c860a33e1b744231c1d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 33/56] fix: a class none of whose constructors can be wrapped
 does not inherit its parent's

---
 pybindgen/cppclass.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 305726a..cb0792a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -633,6 +633,7 @@ class CppClass(object):
         self._dummy_methods = [] # methods that have parameter/retval binding problems
         self.nonpublic_methods = []
         self.constructors = [] # (name, wrapper) pairs
+        self.constructors_overload = None # set when the constructor wrappers are generated
         self.pytype = PyTypeObject()
         self.slots = self.pytype.slots
         self.helper_class = None
@@ -2251,36 +2252,37 @@ typedef struct {
 
     def generate_docstring(self):
         name = self.get_python_name()
-        return "\\n".join(sorted([c.generate_docstring(name) for c in self.constructors],
+        constructors = self.constructors
+        if self.constructors_overload is not None:
+            ## leave out the constructors that could not be generated
+            constructors = [c for c in constructors if c.wrapper_actual_name is not None]
+        return "\\n".join(sorted([c.generate_docstring(name) for c in constructors],
                                  key=len, reverse=True))
 
     def _generate_constructor(self, code_sink):
         """generate the constructor, if any"""
         have_constructor = True
+        constructor = None
         if self.constructors and ((not self.cannot_be_constructed) or self.helper_class is not None
                                   and not self.helper_class.cannot_be_constructed):
             code_sink.writeln()
             overload = CppOverloadedConstructor(None)
             self.constructors_overload = overload
             overload.pystruct = self.pystruct
-            for constructor in self.constructors:
+            for wrapper in self.constructors:
                 try:
-                    overload.add(constructor)
+                    overload.add(wrapper)
                 except CodegenErrorBase:
                     continue
             if overload.wrappers:
                 try:
                     overload.generate(code_sink)
                 except utils.SkipWrapper:
-                    constructor = None
-                    have_constructor = False
+                    pass
                 else:
                     constructor = overload.wrapper_actual_name
                     code_sink.writeln()
-            else:
-                constructor = None
-                have_constructor = False
-        else:
+        if constructor is None:
             ## In C++, and unlike Python, constructors with
             ## parameters are not automatically inheritted by
             ## subclasses.  We must generate a 'no constructor'
@@ -2294,8 +2296,7 @@ typedef struct {
             have_constructor = False
             code_sink.writeln()
 
-        self.slots.setdefault("tp_init", (constructor is None and "NULL"
-                                          or constructor))
+        self.slots.setdefault("tp_init", constructor)
         return have_constructor
 
     def _generate_copy_method(self, code_sink):
-- 
2.43.0


From 31d951dc5f1fcef2ddf954003a2234e6d6e34567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 34/56] fix: overloads that cannot be generated are offered
 once to the error handler, and leave the others as they were

---
 pybindgen/overloading.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index 975f538..a33a066 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -92,6 +92,7 @@ class OverloadedWrapper(object):
         if len(self.wrappers) == 1:
             return
 
+        original_force_parse = [(wrapper, wrapper.force_parse) for wrapper in self.wrappers]
         for wrapper in self.wrappers:
             wrapper.force_parse = ForwardWrapperBase.PARSE_TUPLE_AND_KEYWORDS
 
@@ -105,10 +106,8 @@ class OverloadedWrapper(object):
                     wrapper_flags = utils.call_with_error_handling(
                         wrapper.get_py_method_def_flags, args=(), kwargs={}, wrapper=wrapper)
                 except utils.SkipWrapper:
-                    _, ex, tb = sys.exc_info()
                     modified = True
                     self.wrappers.remove(wrapper)
-                    settings.error_handler.handle_error(wrapper, ex, tb)
                     break
 
                 wrapper_flags = set(wrapper_flags)
@@ -116,15 +115,24 @@ class OverloadedWrapper(object):
                     existing_flags = wrapper_flags
                 else:
                     if wrapper_flags != existing_flags:
-                        modified = True
-                        self.wrappers.remove(wrapper)
-                        tb = traceback.extract_stack()
-                        ex = utils.SkipWrapper(
-                            "overloading: removed the wrapper %s because its"
-                            " method flags are different from existing ones."
-                            % (wrapper,))
-                        settings.error_handler.handle_error(wrapper, ex, tb)
-                        break
+                        def different_flags():
+                            raise CodeGenerationError(
+                                "overloading: cannot generate the wrapper %s because its"
+                                " method flags are different from existing ones."
+                                % (wrapper,))
+                        try:
+                            utils.call_with_error_handling(
+                                different_flags, args=(), kwargs={}, wrapper=wrapper)
+                        except utils.SkipWrapper:
+                            modified = True
+                            self.wrappers.remove(wrapper)
+                            break
+
+        if len(self.wrappers) == 1:
+            ## nothing is left to overload with
+            for wrapper, force_parse in original_force_parse:
+                if wrapper is self.wrappers[0]:
+                    wrapper.force_parse = force_parse
 
     def _compute_all_wrappers(self):
         """
-- 
2.43.0


From dda22156674bd8be8c5ff1ea8f9028dda51ff808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 35/56] fix: conflicting docstrings of overloads are offered to
 the error handler

---
 pybindgen/overloading.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index a33a066..ebf8e1b 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -167,6 +167,7 @@ class OverloadedWrapper(object):
             self.wrapper_args = self.all_wrappers[0].wrapper_args
         else:
             ## multiple overloaded wrappers case..
+            self._get_docstring() # fails if the docstrings are in conflict
             flags = self.all_wrappers[0].get_py_method_def_flags()
 
             ## Generate the individual "low level" wrappers that handle a single prototype
@@ -258,6 +259,21 @@ class OverloadedWrapper(object):
 
         return prototype_line
 
+    def _get_docstring(self):
+        """
+        Returns the docstring common to all the overloads, or None
+        """
+        docstrings_set = set()
+        for wrap in self.all_wrappers:
+            docstring = getattr(wrap, 'docstring', None) # constructors have none
+            if docstring is not None:
+                docstrings_set.add(docstring)
+        if len(docstrings_set) > 1:
+            raise CodeGenerationError("Overloaded '%s' has conflicting docstrings" % self.wrapper_name)
+        for docstring in docstrings_set:
+            return docstring
+        return None
+
     def get_py_method_def(self, name):
         """
         Returns an array element to use in a PyMethodDef table.
@@ -282,16 +298,7 @@ class OverloadedWrapper(object):
                             CodeGenerationError,
                             NotSupportedError):
                         pass
-            # check available docstrings for the overloads
-            docstrings_set = set()
-            for wrap in self.all_wrappers:
-                if wrap.docstring is not None:
-                    docstrings_set.add(wrap.docstring)
-            docstring = None
-            if len(docstrings_set) == 1:
-                docstring = docstrings_set.pop()
-            elif len(docstrings_set) > 1:
-                raise CodeGenerationError("Overloaded '%s' has conflicting docstrings" % self.wrapper_name)
+            docstring = self._get_docstring()
 
             assert isinstance(self.wrapper_return, string_types)
             assert isinstance(self.wrapper_actual_name, string_types)
-- 
2.43.0


From d03cbc4dc582b1d4d69ae409cd0169525951420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 36/56] fix: a method of an unrelated base does not implement
 another base's pure virtual method

---
 pybindgen/cppclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cb0792a..595f417 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1010,6 +1010,8 @@ class CppClass(object):
                     ## this pure virtual method.
                     implemented = False
                     for child_cls in mro_reversed[pos+1:]:
+                        if not child_cls.is_subclass(cls):
+                            continue # only unrelated to it by multiple inheritance
                         for child_method in list(child_cls.get_all_methods()) + child_cls._dummy_methods:
                             if not isinstance(child_method, CppMethod):
                                 continue
-- 
2.43.0


From 93023aaa6ea1fe20ab6adbb62798989a2daad1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 37/56] fix: a class that cannot be constructed gets no
 __copy__, instead of failing to generate

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 595f417..f85e7a0 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2426,7 +2426,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         if len(self.bases) > 1: # https://bugs.launchpad.net/pybindgen/+bug/563786
             method_defs.extend(self._generate_MI_parent_methods(code_sink))
 
-        if self.has_copy_constructor:
+        if self.has_copy_constructor and not (self.cannot_be_constructed or self.have_pure_virtual_methods):
             try:
                 copy_wrapper_name = utils.call_with_error_handling(self._generate_copy_method, (code_sink,), {}, self)
             except utils.SkipWrapper:
-- 
2.43.0


From 097654e04b65b4875543d59b2ecff21f585ce589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 38/56] fix: a helper class is not used when an inherited pure
 virtual method cannot be wrapped

---
 pybindgen/cppclass.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f85e7a0..6267fc9 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -293,6 +293,8 @@ class CppHelperClass(object):
         if isinstance(method, CppDummyMethod):
             if method.is_pure_virtual:
                 self.cannot_be_constructed = True
+            else:
+                self.virtual_methods.append(method) # implemented, although not wrapped
         else:
             self.virtual_methods.append(method)
             if not method.is_pure_virtual:
@@ -1804,10 +1806,11 @@ public:
         mro = self.get_mro()
         next(mro) # skip 'self'
         for cls in mro:
-            for method in cls.get_all_methods():
+            for method in list(cls.get_all_methods()) + cls._dummy_methods:
                 if not method.is_virtual:
                     continue
-                method = method.clone()
+                if not isinstance(method, CppDummyMethod):
+                    method = method.clone()
                 self.helper_class.add_virtual_method(method)
 
     def _get_wrapper_registry(self):
@@ -1868,7 +1871,8 @@ typedef struct {
             self._inherit_helper_class_parent_virtuals()
             for hook in self._get_all_helper_class_hooks():
                 hook(self.helper_class)
-            self.helper_class.generate_forward_declarations(code_sink)
+            if not self.helper_class.cannot_be_constructed:
+                self.helper_class.generate_forward_declarations(code_sink)
             if self.helper_class.cannot_be_constructed:
                 self.helper_class = None
                 self.helper_class_disabled = True
-- 
2.43.0


From 551648effa58f544197a41833c4620084e201e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 39/56] fix: reference counted and custom freed objects that
 are not owned are not released with their wrapper

---
 pybindgen/cppclass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6267fc9..6503804 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -183,7 +183,9 @@ class ReferenceCountingMethodsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    tmp->%s();\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        tmp->%s();\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_method))
         return delete_code
@@ -210,7 +212,9 @@ class ReferenceCountingFunctionsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_function))
         return delete_code
@@ -229,7 +233,9 @@ class FreeFunctionPolicy(MemoryPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.free_function))
         return delete_code
-- 
2.43.0


From 6acfcde21d8dad83d5208ba84ba5bda1b7976e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 40/56] fix: __copy__ creates the copy the way the class
 creates instances (smart pointers, custom creation)

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6503804..a071598 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2325,12 +2325,13 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
+        self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
         self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, "%s->obj" % py_copy)
+        self.write_post_instance_creation_code(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
-- 
2.43.0


From b72d4fac67e9f27d28223e4ae3ff8a56e36f15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 41/56] fix: the smart pointer of a wrapper is not destroyed
 twice when the garbage collector clears the wrapper first

---
 pybindgen/typehandlers/smart_ptr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index fd629a1..5774cd4 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -24,7 +24,8 @@ class BoostSharedPtr(SmartPointerPolicy):
         return self.pointer_template % (class_name,)
         
     def get_delete_code(self, cpp_class):
-        return "self->obj.~shared_ptr< %s >();" % (cpp_class.full_name,)
+        # may run more than once: in tp_clear, and then in tp_dealloc
+        return "self->obj.reset();"
 
     def get_pointer_type(self, class_full_name):
         return self.get_pointer_name(class_full_name) + ' '
-- 
2.43.0


From 324bbb08f719114914fda386b4e77c8ba01a1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 42/56] fix: None given for a transferred pointer parameter is
 not written to as if it were a wrapper

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index a071598..7f207d3 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3511,7 +3511,7 @@ class CppClassPtrParameter(CppClassParameterBase):
         if self.transfer_ownership:
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s) {' % self.py_name)
+                wrapper.after_call.write_code('if (%s) {' % value_ptr)
                 wrapper.after_call.indent()
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
@@ -3525,7 +3525,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % self.py_name)
+                wrapper.before_call.write_code("if (%s) {" % value_ptr)
                 wrapper.before_call.indent()
                 self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
                 wrapper.before_call.unindent()
-- 
2.43.0


From 93a0fa3024a145179be91542a280772c841f106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 43/56] fix: the wrapper lent to an override for an output
 reference does not free the caller's object when the call fails

---
 pybindgen/cppclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7f207d3..8bc2665 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3229,6 +3229,8 @@ class CppClassRefParameter(CppClassParameterBase):
                 value = "&(%s)" % self.value
             wrapper.before_call.write_code(
                 "%s->obj = %s;" % (self.py_name, value))
+            wrapper.before_call.write_code(
+                "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (self.py_name,))
             wrapper.build_params.add_parameter("O", [self.py_name])
             wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
 
@@ -3246,6 +3248,7 @@ class CppClassRefParameter(CppClassParameterBase):
                 self.cpp_class.write_create_instance(wrapper.after_call,
                                                      "%s->obj" % self.py_name,
                                                      self.value)
+                wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
                                                                            "%s->obj" % self.py_name)
                 self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-- 
2.43.0


From 716eebbe9b8e01da4a8e5b45f456b9721fff5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 44/56] fix: an output pointer parameter of an override is
 passed to Python once, and existing wrappers keep their object

---
 pybindgen/cppclass.py | 48 ++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8bc2665..50449f5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3602,8 +3602,12 @@ class CppClassPtrParameter(CppClassParameterBase):
                             unconst_value = value
                         wrapper.before_call.write_code(
                             "%s->obj = %s;" % (self.py_name, unconst_value))
-                        wrapper.build_params.add_parameter("O", [self.py_name])
-                        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
+                        wrapper.before_call.write_code(
+                            "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (self.py_name,))
+                        ## (an already existing wrapper is not temporary)
+                        tmp_name = wrapper.declarations.declare_variable(
+                            self.cpp_class.pystruct+'*', 'tmp_'+self.cpp_class.name, 'NULL')
+                        wrapper.before_call.write_code("%s = %s;" % (tmp_name, self.py_name))
 
                         if self.cpp_class.has_copy_constructor:
                             ## if after the call we notice the callee kept a reference
@@ -3613,22 +3617,25 @@ class CppClassPtrParameter(CppClassParameterBase):
                             ## place).
 
                             wrapper.after_call.write_code(
-                                "if (Py_REFCNT(%s) == 1)\n"
+                                "if (%s && Py_REFCNT(%s) == 1)\n"
                                 "    %s->obj = NULL;\n"
-                                "else {\n" % (self.py_name, self.py_name))
+                                "else if (%s) {\n" % (tmp_name, tmp_name, tmp_name, tmp_name))
                             wrapper.after_call.indent()
                             self.cpp_class.write_create_instance(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
+                                                                 "%s->obj" % tmp_name,
                                                                  '*'+value)
+                            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (tmp_name,))
+                            self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, tmp_name,
+                                                                                       "%s->obj" % tmp_name)
                             self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                             "%s->obj" % self.py_name,
+                                                                             "%s->obj" % tmp_name,
                                                                              '*'+value)
                             wrapper.after_call.unindent()
                             wrapper.after_call.write_code('}')
                         else:
                             ## it's not safe for the python wrapper to keep a
                             ## pointer to the object anymore; just set it to NULL.
-                            wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+                            wrapper.after_call.write_code("if (%s)\n    %s->obj = NULL;" % (tmp_name, tmp_name))
                 else:
                     ## The PyObject gets a new reference to the same obj
                     self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
@@ -3639,6 +3646,15 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
         ## closes def write_create_new_wrapper():
 
+        ## is a new wrapper only lent the object for the duration of the call?
+        temporary = (not self.transfer_ownership and self.direction != Parameter.DIRECTION_IN
+                     and not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy))
+
+        def write_register_new_wrapper():
+            if not temporary:
+                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
+                                                                           "%s->obj" % py_name)
+
         if self.cpp_class.helper_class is None:
             try:
                 if self.cpp_class.memory_policy is not None:
@@ -3649,17 +3665,14 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                write_register_new_wrapper()
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                write_register_new_wrapper()
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -3692,19 +3705,22 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                write_register_new_wrapper()
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                write_register_new_wrapper()
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
+
+        if temporary:
+            wrapper.build_params.add_parameter("O", [py_name])
+            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % py_name)
+        else:
             wrapper.build_params.add_parameter("N", [py_name])
 
 
-- 
2.43.0


From 2d72c24fd4e49f179451f68b6abf6b11a69c3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 45/56] fix: an existing wrapper becomes the owner of an object
 given to Python, and no longer is of one given to C++

---
 pybindgen/cppclass.py | 45 ++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 50449f5..f75267d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2705,6 +2705,16 @@ from pybindgen.cppmethod import CppMethod, CppConstructor, CppNoConstructor, Cpp
 
 
 
+def write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr):
+    "makes an already existing wrapper the owner of its object, which Python was given"
+    if isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+        # We are already referencing the existing python wrapper,
+        # so we do not need a reference to the C++ object as well.
+        cpp_class.memory_policy.write_decref(code_block, value_ptr)
+    else:
+        code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (py_name,))
+
+
 def common_shared_object_return(value, py_name, cpp_class, code_block,
                                 type_traits, caller_owns_return,
                                 reference_existing_object, type_is_pointer, caller_manages_return=True,
@@ -2830,13 +2840,10 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
                     code_block, py_name, "%s->obj" % py_name)
             code_block.unindent()
 
-            # If we are already referencing the existing python wrapper,
-            # we do not need a reference to the C++ object as well.
-            if caller_owns_return and \
-                    isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            if caller_owns_return:
                 code_block.write_code("} else {")
                 code_block.indent()
-                cpp_class.memory_policy.write_decref(code_block, value_ptr)
+                write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
                 code_block.unindent()
                 code_block.write_code("}")
             else:
@@ -2862,11 +2869,8 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
 
         code_block.write_code("%s->obj = %s;" % (py_name, const_cast_value))
 
-        # We are already referencing the existing python wrapper,
-        # so we do not need a reference to the C++ object as well.
-        if caller_owns_return and \
-                isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
-            cpp_class.memory_policy.write_decref(code_block, value_ptr)
+        if caller_owns_return:
+            write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
 
         code_block.write_code("Py_INCREF(%s);" % py_name)
         code_block.unindent()
@@ -2901,13 +2905,10 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             code_block.unindent()
 
             # handle ownership rules...
-            if caller_owns_return and \
-                    isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            if caller_owns_return:
                 code_block.write_code("} else {")
                 code_block.indent()
-                # If we are already referencing the existing python wrapper,
-                # we do not need a reference to the C++ object as well.
-                cpp_class.memory_policy.write_decref(code_block, value_ptr)
+                write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
                 code_block.unindent()
                 code_block.write_code("}")
             else:
@@ -3525,6 +3526,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                                             '%s' % self.py_name,
                                                                             '%s->obj' % self.py_name)
                 wrapper.after_call.write_code('%s->obj = NULL;' % self.py_name)
+                # ... and do not free it if it comes back by reference
+                wrapper.after_call.write_code('%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;' % self.py_name)
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
@@ -3672,6 +3675,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                 write_create_new_wrapper()
                 write_register_new_wrapper()
                 wrapper.before_call.unindent()
+                if self.transfer_ownership:
+                    wrapper.before_call.write_code('} else {')
+                    wrapper.before_call.indent()
+                    write_give_to_existing_wrapper(self.cpp_class, wrapper.before_call, py_name, value)
+                    wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
@@ -3691,6 +3699,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                     % (py_name, self.cpp_class.pystruct,
                        self.cpp_class.helper_class.name, value))
                 wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+            if self.transfer_ownership:
+                write_give_to_existing_wrapper(self.cpp_class, wrapper.before_call, py_name, value)
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
@@ -3712,6 +3722,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                 write_create_new_wrapper()
                 write_register_new_wrapper()
                 wrapper.before_call.unindent()
+                if self.transfer_ownership:
+                    wrapper.before_call.write_code('} else {')
+                    wrapper.before_call.indent()
+                    write_give_to_existing_wrapper(self.cpp_class, wrapper.before_call, py_name, value)
+                    wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
-- 
2.43.0


From 46aa9333d813583655fc7e5b513e0ecb1a09db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 46/56] fix: a reference result of a wrapper that catches
 exceptions is not replaced by a copy of its own

---
 pybindgen/cppmethod.py         | 43 ++++++++--------------------------
 pybindgen/function.py          | 20 ++++------------
 pybindgen/typehandlers/base.py | 31 ++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 49 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 2d64985..deb5dd5 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -257,14 +257,6 @@ class CppMethod(ForwardWrapperBase):
             template_params = ''
 
 
-        if self.return_value.ctype == 'void':
-            retval_assign = ''
-        else:
-            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-                retval_assign = '%s retval = ' % (self.return_value.ctype,)
-            else:
-                retval_assign = 'retval = '
-
         if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
                 and not settings._get_deprecated_virtuals():
             helper = self.before_call.declare_variable(type_="%s *" % class_.helper_class.name,
@@ -284,18 +276,14 @@ class CppMethod(ForwardWrapperBase):
             self.before_call.indent()
 
         if self.is_static:
-            self.before_call.write_code(retval_assign + (
-                    '%s::%s%s(%s);' % (class_.full_name,
-                                       self.method_name, template_params,
-                                       ", ".join(self.call_params))))
+            call = '%s::%s%s(%s)' % (class_.full_name, self.method_name, template_params,
+                                     ", ".join(self.call_params))
         else:
             if helper is None:
-                self.before_call.write_code(retval_assign + (
-                        'self->obj->%s%s(%s);' % (self.method_name, template_params,
-                                                  ", ".join(self.call_params))))
+                call = 'self->obj->%s%s(%s)' % (self.method_name, template_params,
+                                                ", ".join(self.call_params))
             else:
-                self.before_call.write_code(retval_assign + (
-                        '(%s == NULL)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s));'
+                call = ('(%s == NULL)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s))'
                         % (helper,
 
                            self.method_name, template_params,
@@ -303,7 +291,8 @@ class CppMethod(ForwardWrapperBase):
 
                            class_.full_name, self.method_name, template_params,
                            ", ".join(self.call_params)
-                           )))
+                           ))
+        self.before_call.write_code(self.get_call_statement(call))
 
         if self.throw:
             self._write_catch_blocks()
@@ -401,8 +390,7 @@ class CppMethod(ForwardWrapperBase):
         """
 
         if self.throw: # Bug #780945
-            self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
-            self.reset_code_generation_state()
+            self.declare_result_before_call()
 
         class_ = self.class_
         #assert isinstance(class_, CppClass)
@@ -983,19 +971,8 @@ class CppVirtualMethodParentCaller(CppMethod):
             self.before_call.write_code('try\n{')
             self.before_call.indent()
 
-        if self.return_value.ctype == 'void':
-            self.before_call.write_code(
-                '%s(%s);' %
-                (method, ", ".join(self.call_params)))
-        else:
-            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-                self.before_call.write_code(
-                    '%s retval = %s(%s);' %
-                    (self.return_value.ctype, method, ", ".join(self.call_params)))
-            else:
-                self.before_call.write_code(
-                    'retval = %s(%s);' %
-                    (method, ", ".join(self.call_params)))
+        self.before_call.write_code(self.get_call_statement(
+            '%s(%s)' % (method, ", ".join(self.call_params))))
 
         if self.throw:
             self._write_catch_blocks()
diff --git a/pybindgen/function.py b/pybindgen/function.py
index f4ad220..9b1c109 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -199,20 +199,9 @@ class Function(ForwardWrapperBase):
             self.before_call.write_code('try\n{')
             self.before_call.indent()
 
-        if self.return_value.ctype == 'void':
-            self.before_call.write_code(
-                '%s%s%s(%s);' % (namespace, self.function_name, template_params,
-                                 ", ".join(self.call_params)))
-        else:
-            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-                self.before_call.write_code(
-                    '%s retval = %s%s%s(%s);' % (self.return_value.ctype,
-                                                 namespace, self.function_name, template_params,
-                                                 ", ".join(self.call_params)))
-            else:
-                self.before_call.write_code(
-                    'retval = %s%s%s(%s);' % (namespace, self.function_name, template_params,
-                                              ", ".join(self.call_params)))
+        self.before_call.write_code(self.get_call_statement(
+            '%s%s%s(%s)' % (namespace, self.function_name, template_params,
+                            ", ".join(self.call_params))))
 
         if self.throw:
             exc_name = self.declarations.reserve_variable('exc')
@@ -246,8 +235,7 @@ class Function(ForwardWrapperBase):
         """
 
         if self.throw: # Bug #780945
-            self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
-            self.reset_code_generation_state()
+            self.declare_result_before_call()
 
         if wrapper_name is None:
             self.wrapper_actual_name = self.wrapper_base_name
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 42cf8eb..ee0c04e 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -819,6 +819,8 @@ class ForwardWrapperBase(object):
             if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
                 # declared together with the call
                 self.declarations.reserve_variable('retval')
+            elif self.return_value.HELD_BY_ADDRESS:
+                self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref) + '*', 'retval')
             else:
                 self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref), 'retval')
 
@@ -839,6 +841,34 @@ class ForwardWrapperBase(object):
 
         self._init_code_generation_state()
 
+    def declare_result_before_call(self):
+        """
+        Have the variable of the result declared at the top of the
+        wrapper, because the call is made in a block of its own (try).
+        A reference cannot be declared there: its address is kept.
+        """
+        if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR and self.return_value.type_traits.type_is_reference:
+            # the virtual method proxy shares our return value
+            self.return_value = copy(self.return_value)
+            self.return_value.HELD_BY_ADDRESS = True
+            self.return_value.value = '(*retval)'
+        self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
+        self.reset_code_generation_state()
+
+    def get_call_statement(self, call):
+        """
+        Get the statement that makes a call and stores the result.
+
+        :param call: C/C++ expression of the call
+        """
+        if self.return_value.ctype == 'void':
+            return '%s;' % call
+        if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
+            return '%s retval = %s;' % (self.return_value.ctype, call)
+        if self.return_value.HELD_BY_ADDRESS:
+            return 'retval = &(%s);' % call
+        return 'retval = %s;' % call
+
     def set_parse_error_return(self, parse_error_return):
         self.before_parse.error_return = parse_error_return
         self.before_call.error_return = parse_error_return
@@ -1190,6 +1220,7 @@ class _ReturnValue(TypeHandler):
     SUPPORTS_TRANSFORMATIONS = False
 
     REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
+    HELD_BY_ADDRESS = False # the variable retval is the address of the result
     NO_RETVAL_DECL = False
 
     #@classmethod
-- 
2.43.0


From 3525bc799b1538e77cac329d9636ced81f7307a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 47/56] fix: the reference given to the callee is not taken
 when a later check refuses the arguments

---
 pybindgen/cppclass.py          | 14 ++++++++------
 pybindgen/cppmethod.py         | 17 ++++++++++-------
 pybindgen/typehandlers/base.py |  6 ++++++
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f75267d..2467ff6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3531,12 +3531,14 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % value_ptr)
-                wrapper.before_call.indent()
-                self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
-                wrapper.before_call.unindent()
-                wrapper.before_call.write_code("}")
-
+                # the callee gets a reference, once the call is certain to be made
+                def write_transfer(code_block):
+                    code_block.write_code("if (%s) {" % value_ptr)
+                    code_block.indent()
+                    self.cpp_class.memory_policy.write_incref(code_block, "%s->obj" % self.py_name)
+                    code_block.unindent()
+                    code_block.write_code("}")
+                wrapper.transfers.append(write_transfer)
 
     def convert_c_to_python(self, wrapper):
         """foo"""
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index deb5dd5..b86d5ac 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -953,19 +953,22 @@ class CppVirtualMethodParentCaller(CppMethod):
                                                           ', '.join([param.name for param in self.parameters])))
 
 
-    def generate_call(self, class_=None):
-        "virtual method implementation; do not call"
-        class_ = self.class_
-        helper = self.before_call.declare_variable(
+    def _before_call_hook(self):
+        "check that the method may be called, besides what is done for all methods"
+        self._helper_variable = self.before_call.declare_variable(
             type_=('%s*' % self._helper_class.name),
             name='helper',
             initializer=("dynamic_cast< %s* >(self->obj)" %  self._helper_class.name))
-        method = '%s->%s' % (helper, self._get_parent_caller_name())
         self.before_call.write_error_check(
-            "%s == NULL" % helper,
-            self.get_reacquire_gil_code() +
+            "%s == NULL" % self._helper_variable,
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
+        super(CppVirtualMethodParentCaller, self)._before_call_hook()
+
+    def generate_call(self, class_=None):
+        "virtual method implementation; do not call"
+        class_ = self.class_
+        method = '%s->%s' % (self._helper_variable, self._get_parent_caller_name())
 
         if self.throw:
             self.before_call.write_code('try\n{')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index ee0c04e..be9dd15 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -795,6 +795,7 @@ class ForwardWrapperBase(object):
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
         self.call_params = []
+        self.transfers = [] # functions writing what hands over parameters to the callee
         self.force_parse = force_parse
         self.meth_flags = []
         self.unblock_threads = unblock_threads
@@ -837,6 +838,7 @@ class ForwardWrapperBase(object):
         self.build_params.clear()
         self.parse_params.clear()
         self.call_params = []
+        self.transfers = []
         self.meth_flags = []
 
         self._init_code_generation_state()
@@ -970,6 +972,10 @@ class ForwardWrapperBase(object):
 
         self._before_call_hook()
 
+        ## nothing can fail any more before the call
+        for write_transfer in self.transfers:
+            write_transfer(self.before_call)
+
         if self.unblock_threads:
             self.before_call.write_code(
                 "\nif (PyEval_ThreadsInitialized ())\n"
-- 
2.43.0


From cd019de4b755629d9d88ba6d7d43082faf91c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 48/56] fix: an object created by calling its class is
 registered with its wrapper

---
 pybindgen/cppclass.py  | 10 ++++++++++
 pybindgen/cppmethod.py | 24 ++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 2467ff6..d3ef05a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1116,6 +1116,16 @@ class CppClass(object):
             construct_type_name = self.get_construct_name()
         post_instance_creation_func(self, code_block, lvalue, parameters, construct_type_name)
 
+    def get_object_address(self, obj_expr):
+        """
+        Get an expression for the address of the C++ object, given an
+        expression of the type of the obj member of the wrapper (for
+        some memory policies, a smart pointer).
+        """
+        if self.memory_policy is not None:
+            return self.memory_policy.get_pointer_to_void_name(obj_expr)
+        return obj_expr
+
     def get_pystruct(self):
         if self._pystruct is None:
             raise ValueError
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index b86d5ac..72fbe72 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -14,6 +14,7 @@ from pybindgen import overloading
 from pybindgen import settings
 from pybindgen import utils
 from pybindgen.cppexception import CppException
+from pybindgen.wrapper_registry import NullWrapperRegistry
 
 
 class CppMethod(ForwardWrapperBase):
@@ -646,11 +647,29 @@ class CppConstructor(ForwardWrapperBase):
         return self._class
     class_ = property(get_class, set_class)
 
+    def _declare_previous_object(self, class_):
+        "variable with the address of the object that self had before, if wrappers are registered"
+        if isinstance(class_.wrapper_registry, NullWrapperRegistry):
+            return None
+        return self.declarations.declare_variable(
+            'void *', 'previous_obj', '(void *) %s' % class_.get_object_address('self->obj'))
+
+    def _write_register_self(self, class_, previous):
+        "register self as the wrapper of the object just created, instead of any previous one"
+        if previous is None:
+            return
+        self.write_reacquire_gil(self.before_call)
+        class_.wrapper_registry.write_unregister_wrapper(self.before_call, 'self', previous)
+        class_.wrapper_registry.write_register_new_wrapper(
+            self.before_call, 'self', class_.get_object_address('self->obj'))
+
     def generate_call(self, class_=None):
         "virtual method implementation; do not call"
         if class_ is None:
             class_ = self._class
 
+        previous = self._declare_previous_object(class_)
+
         if self.throw:
             self.before_call.write_code('try\n{')
             self.before_call.indent()
@@ -658,6 +677,7 @@ class CppConstructor(ForwardWrapperBase):
         #assert isinstance(class_, CppClass)
         if class_.helper_class is None:
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
+            self._write_register_self(class_, previous)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
         else:
@@ -673,6 +693,7 @@ class CppConstructor(ForwardWrapperBase):
             self.write_reacquire_gil(self.before_call)
             self.before_call.write_code('((%s*) self->obj)->set_pyobj((PyObject *)self);'
                                         % class_.helper_class.name)
+            self._write_register_self(class_, previous)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
                                                      class_.helper_class.name)
 
@@ -693,6 +714,7 @@ class CppConstructor(ForwardWrapperBase):
             else:
                 class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
                 self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+                self._write_register_self(class_, previous)
                 class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
 
             self.before_call.unindent()
@@ -824,9 +846,11 @@ class CppFunctionAsConstructor(CppConstructor):
             class_ = self._class
         #assert isinstance(class_, CppClass)
         assert class_.helper_class is None
+        previous = self._declare_previous_object(class_)
         ## FIXME: check caller_owns_return in self.function_return_value
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
+        self._write_register_self(class_, previous)
         self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
 
 
-- 
2.43.0


From 3189e36fcba8faab85544391e66e56c790a1a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 49/56] fix: a wrapper does not remove another wrapper's record
 from the registry

---
 pybindgen/wrapper_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/wrapper_registry.py b/pybindgen/wrapper_registry.py
index bdc14d6..f7e1ca9 100644
--- a/pybindgen/wrapper_registry.py
+++ b/pybindgen/wrapper_registry.py
@@ -123,7 +123,7 @@ class StdMapWrapperRegistry(WrapperRegistry):
         #                      % (object_rvalue))
         iterator = code_block.declare_variable("std::map<void*, PyObject*>::iterator", "wrapper_lookup_iter")
         code_block.write_code("%(ITER)s = %(MAP)s.find((void *) %(OBJECT_VALUE)s);\n"
-                              "if (%(ITER)s != %(MAP)s.end()) {\n"
+                              "if (%(ITER)s != %(MAP)s.end() && %(ITER)s->second == (PyObject *) %(WRAPPER)s) {\n"
                               "    %(MAP)s.erase(%(ITER)s);\n"
                               "}\n"
                               % dict(ITER=iterator, MAP=self.map_name, WRAPPER=wrapper_lvalue, OBJECT_VALUE=object_rvalue))
-- 
2.43.0


From 44c6bbae9e8127f04fa7c76f79ee07519fa62352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 50/56] fix: smart pointer classes are recorded in the wrapper
 registry under the address of the object

---
 pybindgen/cppclass.py               | 22 +++++++++++-----------
 pybindgen/typehandlers/smart_ptr.py | 12 ++++++------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d3ef05a..ce8e883 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2340,7 +2340,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
-        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, "%s->obj" % py_copy)
+        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, self.get_object_address("%s->obj" % py_copy))
         self.write_post_instance_creation_code(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
@@ -2902,7 +2902,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
         except NotSupportedError:
             write_create_new_wrapper()
             cpp_class.wrapper_registry.write_register_new_wrapper(
-                code_block, py_name, "%s->obj" % py_name)
+                code_block, py_name, cpp_class.get_object_address("%s->obj" % py_name))
         else:
             code_block.write_code("if (%s == NULL) {" % py_name)
             code_block.indent()
@@ -2911,7 +2911,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             # this instance => need to create new one
             write_create_new_wrapper()
             cpp_class.wrapper_registry.write_register_new_wrapper(
-                code_block, py_name, "%s->obj" % py_name)
+                code_block, py_name, cpp_class.get_object_address("%s->obj" % py_name))
             code_block.unindent()
 
             # handle ownership rules...
@@ -3063,7 +3063,7 @@ class CppClassParameter(CppClassParameterBase):
                                              "%s->obj" % self.py_name,
                                              self.value)
         self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                   "%s->obj" % self.py_name)
+                                                                   self.cpp_class.get_object_address("%s->obj" % self.py_name))
         self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                          "%s->obj" % self.py_name,
                                                          self.value)
@@ -3177,7 +3177,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                  "%s->obj" % self.py_name,
                                                  '')
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+                                                                       self.cpp_class.get_object_address("%s->obj" % self.py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              '')
@@ -3223,7 +3223,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                  "%s->obj" % self.py_name,
                                                  self.value)
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+                                                                       self.cpp_class.get_object_address("%s->obj" % self.py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              self.value)
@@ -3261,7 +3261,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                      self.value)
                 wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           "%s->obj" % self.py_name)
+                                                                           self.cpp_class.get_object_address("%s->obj" % self.py_name))
                 self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                                  "%s->obj" % self.py_name,
                                                                  self.value)
@@ -3308,7 +3308,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
                                              "%s->obj" % py_name,
                                              self.value)
         self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                   "%s->obj" % py_name)
+                                                                   self.cpp_class.get_object_address("%s->obj" % py_name))
         self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                          "%s->obj" % py_name,
                                                          self.value)
@@ -3386,7 +3386,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
                                                  "%s->obj" % py_name,
                                                  self.value)
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                       "%s->obj" % py_name)
+                                                                       self.cpp_class.get_object_address("%s->obj" % py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                              "%s->obj" % py_name,
                                                              self.value)
@@ -3641,7 +3641,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                                  '*'+value)
                             wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (tmp_name,))
                             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, tmp_name,
-                                                                                       "%s->obj" % tmp_name)
+                                                                                       self.cpp_class.get_object_address("%s->obj" % tmp_name))
                             self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                                              "%s->obj" % tmp_name,
                                                                              '*'+value)
@@ -3668,7 +3668,7 @@ class CppClassPtrParameter(CppClassParameterBase):
         def write_register_new_wrapper():
             if not temporary:
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_object_address("%s->obj" % py_name))
 
         if self.cpp_class.helper_class is None:
             try:
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 5774cd4..552dbe5 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -248,17 +248,17 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                    wrapper.before_call, self.cpp_class.pystruct, py_name, self.cpp_class.get_object_address(value))
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_object_address("%s->obj" % py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_object_address("%s->obj" % py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
             wrapper.build_params.add_parameter("N", [py_name])
@@ -287,17 +287,17 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                    wrapper.before_call, self.cpp_class.pystruct, py_name, self.cpp_class.get_object_address(value))
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                    wrapper.before_call, py_name, self.cpp_class.get_object_address("%s->obj" % py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_object_address("%s->obj" % py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
-- 
2.43.0


From 9bcc9a8ff25fc819cd93ade42789ffcc80b88cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 51/56] fix: a wrapper cleared by the garbage collector is
 removed from the registry

---
 pybindgen/cppclass.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ce8e883..440bc91 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2492,15 +2492,21 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         ## --- tp_clear ---
         tp_clear_function_name = "%s__tp_clear" % (self.pystruct,)
         self.slots.setdefault("tp_clear", tp_clear_function_name )
-        delete_code = self._get_delete_code()
+        code_block = CodeBlock("return;", DeclarationsScope())
+        code_block.write_code("Py_CLEAR(self->inst_dict);")
+        # the wrapper no longer has an object after this
+        self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.get_object_address('self->obj'))
+        code_block.write_code(self._get_delete_code())
+
         code_sink.writeln(r'''
 static void
 %s(%s *self)
-{
-    Py_CLEAR(self->inst_dict);
-    %s
-}
-''' % (tp_clear_function_name, self.pystruct, delete_code))
+{''' % (tp_clear_function_name, self.pystruct))
+        code_sink.indent()
+        code_block.declarations.get_code_sink().flush_to(code_sink)
+        code_block.sink.flush_to(code_sink)
+        code_sink.unindent()
+        code_sink.writeln('}\n')
 
         ## --- tp_traverse ---
         tp_traverse_function_name = "%s__tp_traverse" % (self.pystruct,)
-- 
2.43.0


From c2a760156886ebbb559923e997fd5ea98d9d5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 52/56] fix: a wrapper whose object an override gave to C++ is
 removed from the registry

---
 pybindgen/cppclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 440bc91..21b9f60 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3908,6 +3908,8 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
                     # value = pyobj->obj; pyobj->obj = NULL;
                     wrapper.after_call.write_code(
                         "%s = %s;" % (self.value, value))
+                    self.cpp_class.wrapper_registry.write_unregister_wrapper(
+                        wrapper.after_call, name, self.cpp_class.get_object_address("%s->obj" % name))
                     wrapper.after_call.write_code(
                         "%s = NULL;" % (value,))
             else:
-- 
2.43.0


From 49e206ec9f437bfa99afc849e3efae4975985369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 53/56] fix: a wrapper that gets its object back is registered
 again

---
 pybindgen/cppclass.py               | 4 ++++
 pybindgen/typehandlers/smart_ptr.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 21b9f60..e350a2c 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2884,6 +2884,8 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
                cpp_class.helper_class.name, const_cast_value))
 
         code_block.write_code("%s->obj = %s;" % (py_name, const_cast_value))
+        cpp_class.wrapper_registry.write_register_new_wrapper(
+            code_block, py_name, cpp_class.get_object_address("%s->obj" % py_name))
 
         if caller_owns_return:
             write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
@@ -3717,6 +3719,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                     % (py_name, self.cpp_class.pystruct,
                        self.cpp_class.helper_class.name, value))
                 wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+            self.cpp_class.wrapper_registry.write_register_new_wrapper(
+                wrapper.before_call, py_name, self.cpp_class.get_object_address("%s->obj" % py_name))
             if self.transfer_ownership:
                 write_give_to_existing_wrapper(self.cpp_class, wrapper.before_call, py_name, value)
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 552dbe5..73cae53 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -280,6 +280,8 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                     % (py_name, self.cpp_class.pystruct,
                        self.cpp_class.helper_class.name, value))
                 wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+            self.cpp_class.wrapper_registry.write_register_new_wrapper(
+                wrapper.before_call, py_name, self.cpp_class.get_object_address("%s->obj" % py_name))
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
-- 
2.43.0


From 6ea7f7cde08c392d2ef8e0c98e226eb018eacea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:26 +0000
Subject: [PATCH 54/56] fix: an object passed to an override by output
 reference is presented by its existing wrapper

---
 pybindgen/cppclass.py | 59 ++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e350a2c..c02303c 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3218,15 +3218,18 @@ class CppClassRefParameter(CppClassParameterBase):
 
         self.py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
-        self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
-        if self.cpp_class.allow_subclassing:
-            wrapper.before_call.write_code(
-                "%s->inst_dict = NULL;" % (self.py_name,))
-        wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+
+        def write_create_new_wrapper():
+            self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
+            if self.cpp_class.allow_subclassing:
+                wrapper.before_call.write_code(
+                    "%s->inst_dict = NULL;" % (self.py_name,))
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
 
         if self.direction == Parameter.DIRECTION_IN:
             if not self.cpp_class.has_copy_constructor:
                 raise CodeGenerationError("Class {0} cannot be copied".format(self.cpp_class.full_name))
+            write_create_new_wrapper()
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
                                                  self.value)
@@ -3246,10 +3249,32 @@ class CppClassRefParameter(CppClassParameterBase):
                 value = "(%s*) (&(%s))" % (self.cpp_class.full_name, self.value)
             else:
                 value = "&(%s)" % self.value
-            wrapper.before_call.write_code(
-                "%s->obj = %s;" % (self.py_name, value))
-            wrapper.before_call.write_code(
-                "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (self.py_name,))
+
+            def write_create_temporary_wrapper():
+                write_create_new_wrapper()
+                wrapper.before_call.write_code(
+                    "%s->obj = %s;" % (self.py_name, value))
+                wrapper.before_call.write_code(
+                    "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (self.py_name,))
+
+            try:
+                self.cpp_class.wrapper_registry.write_lookup_wrapper(
+                    wrapper.before_call, self.cpp_class.pystruct, self.py_name, value)
+            except NotSupportedError:
+                write_create_temporary_wrapper()
+                tmp_name = self.py_name
+                is_tmp, and_tmp = "", ""
+            else:
+                ## (an already existing wrapper is not temporary)
+                tmp_name = wrapper.declarations.declare_variable(
+                    self.cpp_class.pystruct+'*', 'tmp_'+self.cpp_class.name, 'NULL')
+                wrapper.before_call.write_code("if (%s == NULL)\n{" % self.py_name)
+                wrapper.before_call.indent()
+                write_create_temporary_wrapper()
+                wrapper.before_call.write_code("%s = %s;" % (tmp_name, self.py_name))
+                wrapper.before_call.unindent()
+                wrapper.before_call.write_code('}')
+                is_tmp, and_tmp = "if (%s) " % tmp_name, "%s && " % tmp_name
             wrapper.build_params.add_parameter("O", [self.py_name])
             wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
 
@@ -3260,25 +3285,25 @@ class CppClassRefParameter(CppClassParameterBase):
                 ## simply erased (we never owned this object in the first
                 ## place).
                 wrapper.after_call.write_code(
-                    "if (Py_REFCNT(%s) == 1)\n"
+                    "if (%sPy_REFCNT(%s) == 1)\n"
                     "    %s->obj = NULL;\n"
-                    "else{\n" % (self.py_name, self.py_name))
+                    "else %s{\n" % (and_tmp, tmp_name, tmp_name, is_tmp))
                 wrapper.after_call.indent()
                 self.cpp_class.write_create_instance(wrapper.after_call,
-                                                     "%s->obj" % self.py_name,
+                                                     "%s->obj" % tmp_name,
                                                      self.value)
-                wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           self.cpp_class.get_object_address("%s->obj" % self.py_name))
+                wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (tmp_name,))
+                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, tmp_name,
+                                                                           self.cpp_class.get_object_address("%s->obj" % tmp_name))
                 self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
+                                                                 "%s->obj" % tmp_name,
                                                                  self.value)
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
                 ## it's not safe for the python wrapper to keep a
                 ## pointer to the object anymore; just set it to NULL.
-                wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+                wrapper.after_call.write_code("%s%s->obj = NULL;" % (is_tmp, tmp_name))
 
 
 class CppClassReturnValue(CppClassReturnValueBase):
-- 
2.43.0


From af2ab6be9191d7065d1d359e277d0e4b3ad9402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 55/56] fix: a function wrapped as constructor honours its
 threading option

---
 pybindgen/cppmethod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 72fbe72..42deede 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -836,7 +836,7 @@ class CppFunctionAsConstructor(CppConstructor):
             unblock_threads = settings.unblock_threads
 
         parameters = [utils.eval_param(param, self) for param in parameters]
-        super(CppFunctionAsConstructor, self).__init__(parameters)
+        super(CppFunctionAsConstructor, self).__init__(parameters, unblock_threads=unblock_threads)
         self.c_function_name = c_function_name
         self.function_return_value = return_value
 
-- 
2.43.0


From a5a860f6df3b3c0179b47a49972ebbf2dea99ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:22 +0000
Subject: [PATCH 56/56] fix: int* parameters with a NULL default are converted
 with functions that Python 3 has

---
 pybindgen/typehandlers/inttype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 72474c8..6a45d15 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -189,7 +189,7 @@ class IntPtrParam(PointerParameter):
                 wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
                 wrapper.before_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
+                    "    %(name_int)s = PyLong_AsLong(%(name_obj)s);\n"
                     "    %(name_ptr)s = &%(name_int)s;\n"
                     "} else {\n"
                     "    %(name_ptr)s = NULL;\n"
@@ -199,10 +199,10 @@ class IntPtrParam(PointerParameter):
             if self.direction & self.DIRECTION_OUT:
                 wrapper.after_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
+                    "    %(name_obj)s = PyLong_FromLong(%(name_int)s);\n"
                     "} else {\n"
                     "    %(name_obj)s = Py_None;\n"
-                    "    Py_INCREC(%(name_obj)s);\n"
+                    "    Py_INCREF(%(name_obj)s);\n"
                     "}\n"
                     % vars())
                 wrapper.build_params.add_parameter("N", [name_obj])
-- 
2.43.0

