"""Behaviour-preserving edits of the code under contract: every check has to stay quiet on them.
   python3 dev/refactor.py [--only id,...] [C01 C02 ...]"""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, CS, C, M, U, WR = ('pybindgen/typehandlers/base.py', 'pybindgen/typehandlers/codesink.py', 'pybindgen/cppclass.py', 'pybindgen/cppmethod.py',
                      'pybindgen/utils.py', 'pybindgen/wrapper_registry.py')
R = []


def r(set_, file, old, new):
    R.append((set_, file, old, new))


r(1, CS, """        l = []
        for line in code.split('\\n'):
            l.append(' '*self.indent_level + line)
        return l
""", """        prefix = ' ' * self.indent_level
        return [prefix + line for line in code.split('\\n')]
""")
r(2, CS, """        l = []
        for line in code.split('\\n'):
            l.append(' '*self.indent_level + line)
        return l
""", """        return list(map(self._indented, code.split('\\n')))

    def _indented(self, line):
        return '%s%s' % (' ' * self.indent_level, line)
""")
r(1, CS, """        l = []
        for line in self.lines:
            l.extend(self._format_code(line))
        self.lines = []
        return "\\n".join(l) + '\\n'
""", """        pending, self.lines = self.lines, []
        formatted = []
        for text in pending:
            formatted += self._format_code(text)
        return "\\n".join(formatted) + '\\n'
""")
r(2, CS, """        l = []
        for line in self.lines:
            l.extend(self._format_code(line))
        self.lines = []
        return "\\n".join(l) + '\\n'
""", """        l = [formatted for line in self.lines for formatted in self._format_code(line)]
        self.lines = []
        return '\\n'.join(l) + '\\n'
""")
r(1, CS, """        for line in self.lines:
            sink.writeln(line.rstrip())
        self.lines = []
""", """        lines = self.lines
        self.lines = []
        for line in lines:
            sink.writeln(line.rstrip())
""")
r(1, B, """        cleanup = []
        items = list(self._cleanup_actions.items())
        items.sort()
        for dummy, code in items:
            cleanup.append(code)
        cleanup.reverse()
        if self.predecessor is not None:
            cleanup.extend(self.predecessor.get_cleanup_code())
        return cleanup
""", """        cleanup = [code for dummy, code in sorted(self._cleanup_actions.items(), reverse=True)]
        if self.predecessor is None:
            return cleanup
        return cleanup + self.predecessor.get_cleanup_code()
""")
r(2, B, """        cleanup = []
        items = list(self._cleanup_actions.items())
        items.sort()
        for dummy, code in items:
            cleanup.append(code)
        cleanup.reverse()
        if self.predecessor is not None:
            cleanup.extend(self.predecessor.get_cleanup_code())
        return cleanup
""", """        cleanup = []
        for position in sorted(self._cleanup_actions, reverse=True):
            cleanup.append(self._cleanup_actions[position])
        if self.predecessor is not None:
            for code in self.predecessor.get_cleanup_code():
                cleanup.append(code)
        return cleanup
""")
r(1, B, """        self._last_cleanup_position += 1
        handle = self.CleanupHandle(self, self._last_cleanup_position)
        self._cleanup_actions[handle.get_position()] = cleanup_code
        return handle
""", """        position = self._last_cleanup_position + 1
        self._last_cleanup_position = position
        self._cleanup_actions[position] = cleanup_code
        return self.CleanupHandle(self, position)
""")
r(2, B, """        self.sink.writeln("if (%s) {" % (failure_expression,))
        self.sink.indent()
        if failure_cleanup is not None:
            self.sink.writeln(failure_cleanup)
        self.write_error_return()
        self.sink.unindent()
        self.sink.writeln("}")
""", """        self.write_code("if (%s) {" % failure_expression)
        self.indent()
        self._write_failure(failure_cleanup)
        self.unindent()
        self.write_code("}")

    def _write_failure(self, failure_cleanup):
        if failure_cleanup is not None:
            self.write_code(failure_cleanup)
        self.write_error_return()
""")
r(1, B, """        try:
            num = self.declared_variables[name]
        except KeyError:
            num = 0
        num += 1
        if num == 1:
            varname = name
        else:
            varname = "%s%i" % (name, num)
            # the numbered name may itself have been requested before
            while varname in self.declared_variables:
                num += 1
                varname = "%s%i" % (name, num)
            self.declared_variables[varname] = 1
        self.declared_variables[name] = num
        return varname
""", """        num = self.declared_variables.get(name, 0) + 1
        if num == 1:
            self.declared_variables[name] = 1
            return name
        varname = name + str(num)
        # the numbered name may itself have been requested before
        while varname in self.declared_variables:
            num = num + 1
            varname = name + str(num)
        self.declared_variables[varname] = 1
        self.declared_variables[name] = num
        return varname
""")
r(2, B, """        try:
            num = self.declared_variables[name]
        except KeyError:
            num = 0
        num += 1
        if num == 1:
            varname = name
        else:
            varname = "%s%i" % (name, num)
            # the numbered name may itself have been requested before
            while varname in self.declared_variables:
                num += 1
                varname = "%s%i" % (name, num)
            self.declared_variables[varname] = 1
        self.declared_variables[name] = num
        return varname
""", """        used = self.declared_variables
        if name not in used:
            used[name] = 1
            return name
        num = used[name] + 1
        while True:
            varname = "%s%i" % (name, num)
            if varname not in used:
                break
            num += 1
        used[varname] = 1
        used[name] = num
        return varname
""")
r(1, B, """        decl = join_ctype_and_name(type_, varname)
        if array is not None:
            decl += array
        if initializer is not None:
            decl += ' = ' + initializer
        self._declarations.writeln(decl + ';')
""", """        suffix = '' if array is None else array
        value = '' if initializer is None else ' = %s' % initializer
        self._declarations.writeln('%s%s%s;' % (join_ctype_and_name(type_, varname), suffix, value))
""")
r(2, B, """        item = (param_template, param_values, param_name, optional)
        if prepend:
            self._parse_tuple_items.insert(0, item)
        else:
            self._parse_tuple_items.append(item)
        return len(self._parse_tuple_items)
""", """        items = self._parse_tuple_items
        items.insert(0 if prepend else len(items), (param_template, param_values, param_name, optional))
        return len(items)
""")
r(1, B, """        params = [''.join(template)]
        for (dummy, param_values,
             dummy, dummy) in self._parse_tuple_items:
            params.extend(param_values)
        return params

    def get_keywords""", """        params = [''.join(template)]
        for item in self._parse_tuple_items:
            params += item[1]
        return params

    def get_keywords""")
r(2, B, """        template = ['"']
        last_was_optional = False
        for (param_template, dummy,
             param_name, optional) in self._parse_tuple_items:
            if last_was_optional and not optional:
                raise ValueError("Error: optional parameter followed by a non-optional one (%r)"
                                 " (debug: self._parse_tuple_parameters=%r)" % (param_name, self._parse_tuple_items))
            if not last_was_optional and optional:
                template.append('|')
                last_was_optional = True
            template.append(param_template)
        template.append('"')
        params = [''.join(template)]
        for (dummy, param_values,
             dummy, dummy) in self._parse_tuple_items:
            params.extend(param_values)
        return params
""", """        template = '"'
        values = []
        last_was_optional = False
        for (param_template, param_values, param_name, optional) in self._parse_tuple_items:
            if optional:
                if not last_was_optional:
                    template += '|'
                    last_was_optional = True
            elif last_was_optional:
                raise ValueError("Error: optional parameter followed by a non-optional one (%r)"
                                 " (debug: self._parse_tuple_parameters=%r)" % (param_name, self._parse_tuple_items))
            template += param_template
            values.extend(param_values)
        return [template + '"'] + values
""")
r(1, B, """        keywords = []
        for (dummy, dummy, name, dummy) in self._parse_tuple_items:
            if name is None:
                if keywords:
                    raise ValueError("mixing parameters with and without keywords")
            else:
                keywords.append(name)
        if keywords:
            if len(keywords) != len(self._parse_tuple_items):
                raise ValueError("mixing parameters with and without keywords")
            return keywords
        else:
            return None
""", """        keywords = [item[2] for item in self._parse_tuple_items if item[2] is not None]
        if not keywords:
            return None
        if len(keywords) != len(self._parse_tuple_items):
            raise ValueError("mixing parameters with and without keywords")
        return keywords
""")
r(1, B, """        template = ['"']
        if force_tuple_creation:
            template.append('(')
        params = [None]
        for (param_template, param_values, dummy) in self._build_value_items:
            template.append(param_template)
            params.extend(param_values)
        if force_tuple_creation:
            template.append(')')
        template.append('"')
        params[0] = ''.join(template)
        return params
""", """        template = ''.join([item[0] for item in self._build_value_items])
        if force_tuple_creation:
            template = '(' + template + ')'
        params = ['"%s"' % template]
        for item in self._build_value_items:
            params.extend(item[1])
        return params
""")
r(2, B, """        return [cleanup for (dummy, dummy, cleanup) in self._build_value_items]
""", """        handles = []
        for item in self._build_value_items:
            handles.append(item[2])
        return handles
""")
r(1, B, """            aliases_to_try = []
            try:
                aliases_to_try.append(self._type_aliases[name])
            except KeyError:
                pass
            aliases_to_try.extend(self._type_aliases_rev.get(name, ()))
            already_tried.append(name)
""", """            aliases_to_try = [self._type_aliases[name]] if name in self._type_aliases else []
            aliases_to_try += self._type_aliases_rev.get(name, ())
            already_tried.append(name)
""")
r(2, B, """        from_type_name_normalized = str(ctypeparser.TypeTraits(from_type_name).ctype)
        to_type_name_normalized = str(ctypeparser.TypeTraits(to_type_name).ctype)
        self._type_aliases[to_type_name_normalized] = from_type_name_normalized
        # most recently declared alias first
        self._type_aliases_rev.setdefault(from_type_name_normalized, []).insert(0, to_type_name_normalized)
""", """        def normalized(name):
            return str(ctypeparser.TypeTraits(name).ctype)
        source, target = normalized(from_type_name), normalized(to_type_name)
        self._type_aliases[target] = source
        # most recently declared alias first
        if source not in self._type_aliases_rev:
            self._type_aliases_rev[source] = []
        self._type_aliases_rev[source].insert(0, target)
""")
r(1, M, """        for param1, param2 in zip(self.parameters, other.parameters):
            if param1.ctype != param2.ctype:
                return False
        if bool(self.is_const) != bool(other.is_const):
            return False
        return True
""", """        if bool(self.is_const) != bool(other.is_const):
            return False
        return all(param1.ctype == param2.ctype for param1, param2 in zip(self.parameters, other.parameters))
""")
r(2, M, """        if len(self.parameters) != len(other.parameters):
            return False
        for param1, param2 in zip(self.parameters, other.parameters):
            if param1.ctype != param2.ctype:
                return False
""", """        if len(self.parameters) != len(other.parameters):
            return False
        for i in range(len(self.parameters)):
            if self.parameters[i].ctype != other.parameters[i].ctype:
                return False
""")
r(1, C, """        if self.have_pure_virtual_methods:
            raise CodeGenerationError("%s cannot be constructed (class has pure virtual methods)" % self.full_name)
        else:
            return self.full_name
""", """        if not self.have_pure_virtual_methods:
            return self.full_name
        raise CodeGenerationError("%s cannot be constructed (class has pure virtual methods)" % self.full_name)
""")
r(1, C, """        for existing in self.virtual_methods:
            if method.matches_signature(existing):
                return # don't re-add already existing method

        if isinstance(method, CppDummyMethod):
""", """        if any(method.matches_signature(existing) for existing in self.virtual_methods):
            return # don't re-add already existing method

        if isinstance(method, CppDummyMethod):
""")
r(2, C, """        if isinstance(method, CppDummyMethod):
            if method.is_pure_virtual:
                self.cannot_be_constructed = True
            else:
                self.virtual_methods.append(method) # implemented, although not wrapped
        else:
            self.virtual_methods.append(method)
            if not""", """        if isinstance(method, CppDummyMethod) and method.is_pure_virtual:
            self.cannot_be_constructed = True
            return
        self.virtual_methods.append(method)
        if not isinstance(method, CppDummyMethod):
            if not""")
r(1, U, """    s = name.replace('<', '__lt__').replace('>', '__gt__').replace(',', '_')
    s = s.replace(' ', '_').replace('&', '__amp__').replace('*', '__star__')
    s = s.replace(':', '_')
    s = s.replace('(', '_lp_').replace(')', '_rp_')
""", """    s = name
    for char, text in [('<', '__lt__'), ('>', '__gt__'), (',', '_'), (' ', '_'), ('&', '__amp__'), ('*', '__star__'),
                       (':', '_'), ('(', '_lp_'), (')', '_rp_')]:
        s = s.replace(char, text)
""")
r(1, U, """    if settings.error_handler is None:
        return callback(*args, **kwargs)
    else:
        try:
            return callback(*args, **kwargs)
        except Exception:
            _, ex, _ = sys.exc_info()
            if isinstance(ex, exceptions_to_handle):
                dummy1, dummy2, traceback = sys.exc_info()
                if settings.error_handler.handle_error(wrapper, ex, traceback):
                    raise SkipWrapper
                else:
                    raise
            else:
                raise
""", """    if settings.error_handler is None:
        return callback(*args, **kwargs)
    try:
        return callback(*args, **kwargs)
    except exceptions_to_handle:
        _, ex, traceback = sys.exc_info()
        if not settings.error_handler.handle_error(wrapper, ex, traceback):
            raise
        raise SkipWrapper
""")
r(2, U, """    if template_args:
        return '%s__lt__%s__gt__' % (mangle_name(base_name), '_'.join(
                [mangle_name(arg) for arg in template_args]))
    else:
        return mangle_name(base_name)
""", """    mangled = mangle_name(base_name)
    if template_args:
        mangled += '__lt__' + '_'.join(mangle_name(arg) for arg in template_args) + '__gt__'
    return mangled
""")
r(1, WR, """        code_block.write_code("if (%(ITER)s == %(MAP)s.end()) {\\n"
                              "    %(WRAPPER)s = NULL;\\n"
                              "} else {\\n"
                              "    %(WRAPPER)s = (%(TYPE)s *) %(ITER)s->second;\\n"
                              "    Py_INCREF(%(WRAPPER)s);\\n"
                              "}\\n"
                              % dict(ITER=iterator, MAP=self.map_name, WRAPPER=wrapper_lvalue, TYPE=wrapper_type))
""", """        code_block.write_code("if (%s != %s.end()) {" % (iterator, self.map_name))
        code_block.indent()
        code_block.write_code("%s = (%s *) %s->second;" % (wrapper_lvalue, wrapper_type, iterator))
        code_block.write_code("Py_INCREF(%s);" % wrapper_lvalue)
        code_block.unindent()
        code_block.write_code("} else {\\n    %s = NULL;\\n}" % wrapper_lvalue)
""")
r(2, WR, """        code_block.write_code("%(ITER)s = %(MAP)s.find((void *) %(OBJECT_VALUE)s);\\n"
                              "if (%(ITER)s != %(MAP)s.end() && %(ITER)s->second == (PyObject *) %(WRAPPER)s) {\\n"
                              "    %(MAP)s.erase(%(ITER)s);\\n"
                              "}\\n"
                              % dict(ITER=iterator, MAP=self.map_name, WRAPPER=wrapper_lvalue, OBJECT_VALUE=object_rvalue))
""", """        code_block.write_code("%s = %s.find((void *) %s);" % (iterator, self.map_name, object_rvalue))
        code_block.write_code("if (%s != %s.end()) {" % (iterator, self.map_name))
        code_block.indent()
        code_block.write_code("if (%s->second == (PyObject *) %s) {" % (iterator, wrapper_lvalue))
        code_block.indent()
        code_block.write_code("%s.erase(%s);" % (self.map_name, iterator))
        code_block.unindent()
        code_block.write_code("}")
        code_block.unindent()
        code_block.write_code("}")
""")

O, CA, IT = 'pybindgen/overloading.py', 'pybindgen/cppattribute.py', 'pybindgen/typehandlers/inttype.py'

# ---- set 3: the code emitters --------------------------------------------------------------------
r(3, C, """                       "    self->obj = NULL;\\n"
                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\\n"
                       "        tmp->%s();\\n"
                       "    }\\n"
                       "}"
                       % (cpp_class.full_name, self.decref_method))
        return delete_code
""", """                       "    if ((self->flags & PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED) == 0) {\\n"
                       "        self->obj = NULL;\\n"
                       "        tmp->%s();\\n"
                       "    } else {\\n"
                       "        self->obj = NULL;\\n"
                       "    }\\n"
                       "}"
                       % (cpp_class.full_name, self.decref_method))
        return delete_code
""")
r(3, C, """    def get_delete_code(self, cpp_class):
        delete_code = ("if (self->obj) {\\n"
                       "    %s *tmp = self->obj;\\n"
                       "    self->obj = NULL;\\n"
                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\\n"
                       "        %s(tmp);\\n"
                       "    }\\n"
                       "}"
                       % (cpp_class.full_name, self.decref_function))
        return delete_code
""", """    def get_delete_code(self, cpp_class):
        return self._delete_code_with(cpp_class, self.decref_function)

    def _delete_code_with(self, cpp_class, release):
        lines = ["if (self->obj) {",
                 "    %s *obj_to_release = self->obj;" % cpp_class.full_name,
                 "    self->obj = NULL;",
                 "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED))",
                 "        %s(obj_to_release);" % release,
                 "}"]
        return "\\n".join(lines)
""")
r(3, C, """        delete_code = ("if (self->obj) {\\n"
                       "    %s *tmp = self->obj;\\n"
                       "    self->obj = NULL;\\n"
                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\\n"
                       "        %s(tmp);\\n"
                       "    }\\n"
                       "}"
                       % (cpp_class.full_name, self.free_function))
        return delete_code
""", """        return ("if (self->obj != NULL) {\\n"
                "    %(TYPE)s *tmp = self->obj;\\n"
                "    self->obj = NULL;\\n"
                "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\\n"
                "        %(FREE)s(tmp);\\n"
                "    }\\n"
                "}" % dict(TYPE=cpp_class.full_name, FREE=self.free_function))
""")
r(3, C, """                if self.destructor_visibility == 'public':
                    delete_code = ("    %s *tmp = self->obj;\\n"
                                   "    self->obj = NULL;\\n"
                                   "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\\n"
                                   "        delete tmp;\\n"
                                   "    }" % (self.full_name,))
                else:
                    delete_code = ("    self->obj = NULL;\\n")
        return delete_code
""", """                if self.destructor_visibility != 'public':
                    return "self->obj = NULL;"
                delete_code = ("%s *tmp = self->obj;\\n"
                               "self->obj = NULL;\\n"
                               "if (!(self->flags & PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) delete tmp;"
                               % self.full_name)
        return delete_code
""")
r(3, C, """        if self.memory_policy is not None:
            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
        else:
            self.wrapper_registry.write_unregister_wrapper(code_block, 'self', 'self->obj')

        if self.allow_subclassing:
            code_block.write_code("%s(self);" % self.slots["tp_clear"])
        else:
            code_block.write_code(self._get_delete_code())

        code_block.write_code('Py_TYPE(self)->tp_free((PyObject*)self);')

        code_block.write_cleanup()
""", """        self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.get_object_address('self->obj'))

        if not self.allow_subclassing:
            code_block.write_code(self._get_delete_code())
        else:
            code_block.write_code("%s(self);" % self.slots["tp_clear"])

        code_block.write_code('Py_TYPE(self)->tp_free((PyObject *) self);')

        code_block.write_cleanup()
""")
r(3, C, """        def wrap_operator(name, opid_code):
            code_sink.writeln("case %s:" % opid_code)
            code_sink.indent()
            if name in self.binary_comparison_operators:
                code_sink.writeln("if (*self->obj %(OP)s *other->obj) {\\n"
                                  "    Py_INCREF(Py_True);\\n"
                                  "    return Py_True;\\n"
                                  "} else {\\n"
                                  "    Py_INCREF(Py_False);\\n"
                                  "    return Py_False;\\n"
                                  "}" % dict(OP=name))
            else:
                code_sink.writeln("Py_INCREF(Py_NotImplemented);\\n"
                                  "return Py_NotImplemented;")
            code_sink.unindent()

        wrap_operator('<', 'Py_LT')
        wrap_operator('<=', 'Py_LE')
        wrap_operator('==', 'Py_EQ')
        wrap_operator('!=', 'Py_NE')
        wrap_operator('>=', 'Py_GE')
        wrap_operator('>', 'Py_GT')

        code_sink.writeln("} /* closes switch (opid) */")
""", """        def write_return(singleton):
            code_sink.writeln("Py_INCREF(%s);" % singleton)
            code_sink.writeln("return %s;" % singleton)

        for name, opid_code in (('==', 'Py_EQ'), ('!=', 'Py_NE'), ('<', 'Py_LT'), ('<=', 'Py_LE'), ('>', 'Py_GT'), ('>=', 'Py_GE')):
            code_sink.writeln("case %s:" % opid_code)
            code_sink.indent()
            if name in self.binary_comparison_operators:
                code_sink.writeln("if (*self->obj %s *other->obj) {" % name)
                code_sink.indent()
                write_return("Py_True")
                code_sink.unindent()
                code_sink.writeln("}")
                write_return("Py_False")
            else:
                write_return("Py_NotImplemented")
            code_sink.unindent()

        code_sink.writeln("} /* closes switch (opid) */")
""")
r(3, C, """    if type_is_pointer:
        value_value = '(*%s)' % value
        value_ptr = value
    else:
        value_ptr = '(&%s)' % value
        value_value = value
    def write_create_new_wrapper():
""", """    if not type_is_pointer:
        value_ptr, value_value = '(&%s)' % value, value
    else:
        value_value, value_ptr = '(*%s)' % value, value

    def write_assign_obj():
        if type_traits.target_is_const:
            code_block.write_code("%s->obj = (%s *) (%s);" % (py_name, cpp_class.full_name, value_ptr))
        else:
            code_block.write_code("%s->obj = %s;" % (py_name, value_ptr))

    def write_create_new_wrapper():
""")
r(3, C, """        ## Assign the C++ value to the Python wrapper
        if caller_owns_return:
            if type_traits.target_is_const:
                code_block.write_code("%s->obj = (%s *) (%s);" % (py_name, cpp_class.full_name, value_ptr))
            else:
                code_block.write_code("%s->obj = %s;" % (py_name, value_ptr))
            code_block.write_code(
                "%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (py_name,))
        else:
            if not isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
                if reference_existing_object:
                    if type_traits.target_is_const:
                        code_block.write_code("%s->obj = (%s *) (%s);" % (py_name, cpp_class.full_name, value_ptr))
                    else:
                        code_block.write_code("%s->obj = %s;" % (py_name, value_ptr))
                    code_block.write_code(
                        "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (py_name,))
                else:
                    if caller_manages_return:
                        # The PyObject creates its own copy
                        if not cpp_class.has_copy_constructor:
                            raise CodeGenerationError("Class {0} cannot be copied".format(cpp_class.full_name))
                        cpp_class.write_create_instance(code_block,
                                                             "%s->obj" % py_name,
                                                             value_value)
                        code_block.write_code(
                            "%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (py_name,))
                        cpp_class.write_post_instance_creation_code(code_block,
                                                                    "%s->obj" % py_name,
                                                                    value_value)
                    else:
                        if type_traits.target_is_const:
                            code_block.write_code("%s->obj = (%s *) (%s);" % (py_name, cpp_class.full_name, value_ptr))
                        else:
                            code_block.write_code("%s->obj = %s;" % (py_name, value_ptr))
                        code_block.write_code(
                            "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (py_name,))
            else:
                if caller_manages_return:
                    ## The PyObject gets a new reference to the same obj
                    code_block.write_code(
                        "%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (py_name,))
                    cpp_class.memory_policy.write_incref(code_block, value_ptr)
                    if type_traits.target_is_const:
                        code_block.write_code("%s->obj = (%s*) (%s);" %
                                                      (py_name, cpp_class.full_name, value_ptr))
                    else:
                        code_block.write_code("%s->obj = %s;" % (py_name, value_ptr))
                else:
                    if type_traits.target_is_const:
                        code_block.write_code("%s->obj = (%s *) (%s);" % (py_name, cpp_class.full_name, value_ptr))
                    else:
                        code_block.write_code("%s->obj = %s;" % (py_name, value_ptr))
                    code_block.write_code(
                        "%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (py_name,))
""", """        ## Assign the C++ value to the Python wrapper
        refcounted = isinstance(cpp_class.memory_policy, ReferenceCountingPolicy)
        flags = "NONE"
        if caller_owns_return:
            write_assign_obj()
        elif not caller_manages_return or (reference_existing_object and not refcounted):
            flags = "OBJECT_NOT_OWNED"
            write_assign_obj()
        elif refcounted:
            ## The PyObject gets a new reference to the same obj
            write_assign_obj()
            cpp_class.memory_policy.write_incref(code_block, value_ptr)
        else:
            # The PyObject creates its own copy
            if not cpp_class.has_copy_constructor:
                raise CodeGenerationError("Class {0} cannot be copied".format(cpp_class.full_name))
            cpp_class.write_create_instance(code_block, "%s->obj" % py_name, value_value)
            cpp_class.write_post_instance_creation_code(code_block, "%s->obj" % py_name, value_value)
        code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_%s;" % (py_name, flags))
""")
r(3, C, """    if cpp_class.helper_class is None:
        try:
            if cpp_class.memory_policy is not None:
                cpp_class.wrapper_registry.write_lookup_wrapper(
                    code_block, cpp_class.pystruct, py_name, cpp_class.memory_policy.get_pointer_to_void_name(value_ptr))
            else:
                cpp_class.wrapper_registry.write_lookup_wrapper(
                    code_block, cpp_class.pystruct, py_name, value_ptr)
        except NotSupportedError:
            write_create_new_wrapper()
            if cpp_class.memory_policy is not None:
                cpp_class.wrapper_registry.write_register_new_wrapper(
                    code_block, py_name, cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
            else:
                cpp_class.wrapper_registry.write_register_new_wrapper(
                    code_block, py_name, "%s->obj" % py_name)
        else:
            code_block.write_code("if (%s == NULL) {" % py_name)
            code_block.indent()
            write_create_new_wrapper()
            if cpp_class.memory_policy is not None:
                cpp_class.wrapper_registry.write_register_new_wrapper(
                    code_block, py_name, cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
            else:
                cpp_class.wrapper_registry.write_register_new_wrapper(
                    code_block, py_name, "%s->obj" % py_name)
            code_block.unindent()

            if caller_owns_return:
                code_block.write_code("} else {")
                code_block.indent()
                write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
                code_block.unindent()
                code_block.write_code("}")
            else:
                code_block.write_code("}")
    else:
""", """    def write_get_wrapper():
        try:
            cpp_class.wrapper_registry.write_lookup_wrapper(
                code_block, cpp_class.pystruct, py_name, cpp_class.get_object_address(value_ptr))
        except NotSupportedError:
            known = False
        else:
            known = True
        if known and caller_owns_return:
            code_block.write_code("if (%s != NULL) {" % py_name)
            code_block.indent()
            write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
            code_block.unindent()
            code_block.write_code("} else {")
            code_block.indent()
        elif known:
            code_block.write_code("if (!%s) {" % py_name)
            code_block.indent()
        write_create_new_wrapper()
        cpp_class.wrapper_registry.write_register_new_wrapper(
            code_block, py_name, cpp_class.get_object_address("%s->obj" % py_name))
        if known:
            code_block.unindent()
            code_block.write_code("}")

    if cpp_class.helper_class is None:
        write_get_wrapper()
    else:
""")
r(3, C, """        # first check in the wrapper registry...
        try:
            if cpp_class.memory_policy is not None:
                cpp_class.wrapper_registry.write_lookup_wrapper(
                    code_block, cpp_class.pystruct, py_name, cpp_class.memory_policy.get_pointer_to_void_name(value_ptr))
            else:
                cpp_class.wrapper_registry.write_lookup_wrapper(
                    code_block, cpp_class.pystruct, py_name, value_ptr)
        except NotSupportedError:
            write_create_new_wrapper()
            cpp_class.wrapper_registry.write_register_new_wrapper(
                code_block, py_name, cpp_class.get_object_address("%s->obj" % py_name))
        else:
            code_block.write_code("if (%s == NULL) {" % py_name)
            code_block.indent()

            # wrapper registry told us there is no wrapper for
            # this instance => need to create new one
            write_create_new_wrapper()
            cpp_class.wrapper_registry.write_register_new_wrapper(
                code_block, py_name, cpp_class.get_object_address("%s->obj" % py_name))
            code_block.unindent()

            # handle ownership rules...
            if caller_owns_return:
                code_block.write_code("} else {")
                code_block.indent()
                write_give_to_existing_wrapper(cpp_class, code_block, py_name, value_ptr)
                code_block.unindent()
                code_block.write_code("}")
            else:
                code_block.write_code("}")
""", """        # first check in the wrapper registry...
        write_get_wrapper()
""")
r(3, C, """                wrapper.before_call.write_code("if (%(PYNAME)s) {\\n"
                                               "    if ((PyObject *) %(PYNAME)s == Py_None)\\n"
                                               "        %(VALUE)s = NULL;\\n"
                                               "    else\\n"
                                               "        %(VALUE)s = %(PYNAME)s->obj;\\n"
                                               "} else {\\n"
                                               "    %(VALUE)s = NULL;\\n"
                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
""", """                wrapper.before_call.write_code(
                    "%(VALUE)s = (%(PYNAME)s && (PyObject *) %(PYNAME)s != Py_None) ? %(PYNAME)s->obj : NULL;"
                    % dict(PYNAME=self.py_name, VALUE=value_ptr))
""")
r(3, C, """                if self.cpp_class.memory_policy is not None:
                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
                                                                            '%s' % self.py_name,
                                                                            self.cpp_class.memory_policy.get_pointer_to_void_name('%s->obj' % self.py_name))
                else:
                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
                                                                            '%s' % self.py_name,
                                                                            '%s->obj' % self.py_name)
                wrapper.after_call.write_code('%s->obj = NULL;' % self.py_name)
                # ... and do not free it if it comes back by reference
                wrapper.after_call.write_code('%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;' % self.py_name)
""", """                obj_expr = '%s->obj' % self.py_name
                self.cpp_class.wrapper_registry.write_unregister_wrapper(
                    wrapper.after_call, self.py_name, self.cpp_class.get_object_address(obj_expr))
                # ... and do not free it if it comes back by reference
                wrapper.after_call.write_code('%s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;\\n%s = NULL;'
                                              % (self.py_name, obj_expr))
""")
r(3, C, """                def write_transfer(code_block):
                    code_block.write_code("if (%s) {" % value_ptr)
                    code_block.indent()
                    self.cpp_class.memory_policy.write_incref(code_block, "%s->obj" % self.py_name)
                    code_block.unindent()
                    code_block.write_code("}")
                wrapper.transfers.append(write_transfer)
""", """                def write_transfer(code_block):
                    code_block.write_code("if (%s != NULL)" % value_ptr)
                    code_block.indent()
                    self.cpp_class.memory_policy.write_incref(code_block, value_ptr)
                    code_block.unindent()
                wrapper.transfers.append(write_transfer)
""")
r(3, C, """                for conversion_source in implicit_conversion_sources:
                    wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\\n"
                                                   "    %s = *((%s *) %s)->obj;" %
                                                   (self.py_name, conversion_source.pytypestruct,
                                                    tmp_value_variable,
                                                    conversion_source.pystruct, self.py_name))
                wrapper.before_call.write_code("} else {\\n")
                wrapper.before_call.indent()
""", """                for source in implicit_conversion_sources:
                    wrapper.before_call.write_code("}")
                    wrapper.before_call.write_code("else if (PyObject_IsInstance(%s, (PyObject *) &%s))" % (self.py_name, source.pytypestruct))
                    wrapper.before_call.write_code("{")
                    wrapper.before_call.write_code("    %s = *(((%s *) %s)->obj);" % (tmp_value_variable, source.pystruct, self.py_name))
                wrapper.before_call.write_code("} else {\\n")
                wrapper.before_call.indent()
""")
r(3, C, """                wrapper.before_call.write_code("if (%s == NULL)\\n{" % py_name)
                wrapper.before_call.indent()
                write_create_new_wrapper()
                write_register_new_wrapper()
                wrapper.before_call.unindent()
                if self.transfer_ownership:
                    wrapper.before_call.write_code('} else {')
                    wrapper.before_call.indent()
                    write_give_to_existing_wrapper(self.cpp_class, wrapper.before_call, py_name, value)
                    wrapper.before_call.unindent()
                wrapper.before_call.write_code('}')
        else:
            wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\\n{"
""", """                if self.transfer_ownership:
                    wrapper.before_call.write_code("if (%s) {" % py_name)
                    wrapper.before_call.indent()
                    write_give_to_existing_wrapper(self.cpp_class, wrapper.before_call, py_name, value)
                    wrapper.before_call.unindent()
                    wrapper.before_call.write_code("} else {")
                else:
                    wrapper.before_call.write_code("if (!%s) {" % py_name)
                wrapper.before_call.indent()
                write_create_new_wrapper()
                write_register_new_wrapper()
                wrapper.before_call.unindent()
                wrapper.before_call.write_code('}')
        else:
            wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\\n{"
""")
r(3, C, """            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
            self.py_name = py_name

            ## Assign the C++ value to the Python wrapper
            if self.transfer_ownership:
                wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
            else:
""", """            self.py_name = py_name
            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % self.py_name)

            ## Assign the C++ value to the Python wrapper
            if self.transfer_ownership:
                wrapper.before_call.write_code("(%s)->obj = (%s);" % (py_name, value))
            else:
""")
r(3, C, """                            wrapper.after_call.write_code(
                                "if (%s && Py_REFCNT(%s) == 1)\\n"
                                "    %s->obj = NULL;\\n"
                                "else if (%s) {\\n" % (tmp_name, tmp_name, tmp_name, tmp_name))
                            wrapper.after_call.indent()
""", """                            wrapper.after_call.write_code("if (%s) {" % tmp_name)
                            wrapper.after_call.write_code("if (!(Py_REFCNT(%s) > 1)) {" % tmp_name)
                            wrapper.after_call.write_code("    %s->obj = NULL;" % tmp_name)
                            wrapper.after_call.write_code("} else {")
                            wrapper.after_call.indent()
""")
r(3, C, """                                                                             "%s->obj" % tmp_name,
                                                                             '*'+value)
                            wrapper.after_call.unindent()
                            wrapper.after_call.write_code('}')
""", """                                                                             "%s->obj" % tmp_name,
                                                                             '*'+value)
                            wrapper.after_call.unindent()
                            wrapper.after_call.write_code('}')
                            wrapper.after_call.write_code('}')
""")
r(3, O, """                error_return = \"\"\"{
    PyObject *exc_type, *traceback;
    PyErr_Fetch(&exc_type, return_exception, &traceback);
    Py_XDECREF(exc_type);
    Py_XDECREF(traceback);
}
%s\"\"\" % (self.ERROR_RETURN,)
""", """                error_return = \"\"\"{
    PyObject *type, *tb;
    PyErr_Fetch(&type, return_exception, &tb);
    Py_XDECREF(tb);
    Py_XDECREF(type);
}
%s\"\"\" % (self.ERROR_RETURN,)
""")
r(3, O, """            for number, delegate_wrapper in enumerate(delegate_wrappers):
                ## call the delegate wrapper
                args = ['self']
                if 'METH_VARARGS' in flags:
                    args.append('args')
                if 'METH_KEYWORDS' in flags:
                    args.append('kwargs')
                args.append('&exceptions[%i]' % number)
                code_sink.writeln("retval = %s(%s);" % (delegate_wrapper, ', '.join(args)))
                ## if no parse exception, call was successful:
                ## free previous exceptions and return the result
                code_sink.writeln("if (!exceptions[%i]) {" % number)
                code_sink.indent()
                for i in range(number):
                    code_sink.writeln("Py_DECREF(exceptions[%i]);" % i)
                code_sink.writeln("return retval;")
                code_sink.unindent()
                code_sink.writeln("}")
""", """            common_args = ['self']
            for flag, arg in (('METH_VARARGS', 'args'), ('METH_KEYWORDS', 'kwargs')):
                if flag in flags:
                    common_args.append(arg)
            number = 0
            for delegate_wrapper in delegate_wrappers:
                ## call the delegate wrapper; if no parse exception, call
                ## was successful: free previous exceptions and return
                code_sink.writeln("retval = %s(%s, exceptions + %i);" % (delegate_wrapper, ', '.join(common_args), number))
                code_sink.writeln("if (exceptions[%i] == NULL) {" % number)
                code_sink.indent()
                for i in reversed(range(number)):
                    code_sink.writeln("Py_XDECREF(exceptions[%i]);" % i)
                code_sink.writeln("return retval;")
                code_sink.unindent()
                code_sink.writeln("}")
                number += 1
""")
r(3, O, """            for i in range(len(delegate_wrappers)):
                code_sink.writeln(
                    'PyList_SET_ITEM(error_list, %i, PyObject_Str(exceptions[%i]));'
                    % (i, i))
                code_sink.writeln("Py_DECREF(exceptions[%i]);" % i)
            code_sink.writeln('PyErr_SetObject(PyExc_TypeError, error_list);')
""", """            count = len(delegate_wrappers)
            for i in range(count):
                code_sink.writeln('PyList_SET_ITEM(error_list, %i, PyObject_Str(exceptions[%i]));' % (i, i))
            for i in range(count):
                code_sink.writeln("Py_DECREF(exceptions[%i]);" % i)
            code_sink.writeln('PyErr_SetObject(PyExc_TypeError, error_list);')
""")


O, CA, IT, F, MO = ('pybindgen/overloading.py', 'pybindgen/cppattribute.py', 'pybindgen/typehandlers/inttype.py', 'pybindgen/function.py',
                    'pybindgen/module.py')

# ---- set 4: bodies, calls, hooks, tables ---------------------------------------------------------
r(4, B, """        return ("if (%(state)s) {\\n"
                "    PyEval_RestoreThread(%(state)s);\\n"
                "    %(state)s = NULL;\\n"
                "}\\n" % dict(state=self.py_thread_state))
""", """        state = self.py_thread_state
        lines = ["if (%s != NULL)" % state,
                 "{",
                 "    PyEval_RestoreThread(%s);" % state,
                 "    %s = NULL;" % state,
                 "}", ""]
        return "\\n".join(lines)
""")
r(4, B, """            self.after_call.write_code(
                "\\nif (%s)\\n"
                "     PyEval_RestoreThread(%s);\\n" % (py_thread_state, py_thread_state))
""", """            self.after_call.write_code("if (%s != NULL) {" % py_thread_state)
            self.after_call.write_code("    PyEval_RestoreThread(%s);" % py_thread_state)
            self.after_call.write_code("}")
""")
r(4, B, """            self.before_call.write_code(
                "\\nif (PyEval_ThreadsInitialized ())\\n"
                "     %s = PyEval_SaveThread();\\n"
                % (py_thread_state, ))
""", """            self._write_release_gil(py_thread_state)
""")
r(4, B, """    def generate_body(self, code_sink, gen_call_params=()):
""", """    def _write_release_gil(self, state):
        self.before_call.write_code("if (PyEval_ThreadsInitialized()) {\\n    %s = PyEval_SaveThread();\\n}" % state)

    def _get_tuple_of_results(self, params):
        "writes what builds py_retval"
        if params == ['""']:
            self.after_call.write_code('py_retval = Py_None;')
            self.after_call.write_code('Py_INCREF(py_retval);')
        else:
            assert params[0].startswith('"')
            self.after_call.write_code('py_retval = Py_BuildValue((char *) %s);' % ', '.join(params))

    def generate_body(self, code_sink, gen_call_params=()):
""")
r(4, B, """            if params:
                if params == ['""']:
                    self.after_call.write_code('Py_INCREF(Py_None);')
                    self.after_call.write_code('py_retval = Py_None;')
                else:
                    assert params[0][0] == '"'
                    params[0] = "(char *) " + params[0]
                    self.after_call.write_code('py_retval = Py_BuildValue(%s);' %
                                               (', '.join(params),))
""", """            if params:
                self._get_tuple_of_results(params)
""")
r(4, B, """        params = self.parse_params.get_parameters()
        assert params[0][0] == '"'
        params_empty = (params == ['""'])
        params[0] = '(char *) ' + params[0]
        keywords = self.parse_params.get_keywords()
        if not params_empty or self.force_parse != None:
            self.meth_flags.append("METH_VARARGS")
            if keywords is None \\
                    and self.force_parse != self.PARSE_TUPLE_AND_KEYWORDS:

                param_list = ['args'] + params
                self.before_parse.write_error_check('!PyArg_ParseTuple(%s)' %
                                                    (', '.join(param_list),))
            else:
                if keywords is None:
                    keywords = []
                keywords_var = self.declarations.declare_variable(
                    'const char *', 'keywords',
                    '{' + ', '.join(['"%s"' % kw for kw in keywords] + ['NULL']) + '}',
                     '[]')
                param_list = ['args', 'kwargs', params[0], '(char **) ' + keywords_var] + params[1:]
                self.before_parse.write_error_check('!PyArg_ParseTupleAndKeywords(%s)' %
                                                    (', '.join(param_list),))
                self.meth_flags.append("METH_KEYWORDS")
        else:
            self.meth_flags.append("METH_NOARGS")
""", """        format_, params = self._split_format(self.parse_params.get_parameters())
        keywords = self.parse_params.get_keywords()
        if format_ == '""' and not params and self.force_parse is None:
            self.meth_flags.append("METH_NOARGS")
        elif keywords is None and self.force_parse != self.PARSE_TUPLE_AND_KEYWORDS:
            self.meth_flags.append("METH_VARARGS")
            self.before_parse.write_error_check('!PyArg_ParseTuple(%s)' % ', '.join(['args', '(char *) ' + format_] + params))
        else:
            self.meth_flags += ["METH_VARARGS", "METH_KEYWORDS"]
            names = ['"%s"' % kw for kw in keywords or []]
            names.append('NULL')
            keywords_var = self.declarations.declare_variable('const char *', 'keywords', '{%s}' % ', '.join(names), '[]')
            self.before_parse.write_error_check(
                '!PyArg_ParseTupleAndKeywords(%s)'
                % ', '.join(['args', 'kwargs', '(char *) ' + format_, '(char **) ' + keywords_var] + params))
""")
r(4, B, """    def write_open_wrapper(self, code_sink, add_static=False):
""", """    @staticmethod
    def _split_format(params):
        assert params[0][0] == '"'
        return params[0], params[1:]

    def write_open_wrapper(self, code_sink, add_static=False):
""")
r(4, B, """        for write_transfer in self.transfers:
            write_transfer(self.before_call)
""", """        code_block = self.before_call
        for write_transfer in list(self.transfers):
            write_transfer(code_block)
""")
r(4, B, """        self.before_call.write_code('%s = (PyEval_ThreadsInitialized() ? PyGILState_Ensure() : (PyGILState_STATE) 0);'
                                    % gil_state_var)
        self.before_call.add_cleanup_code('if (PyEval_ThreadsInitialized())\\n'
                                          '    PyGILState_Release(%s);' % gil_state_var)
""", """        self.before_call.write_code('if (PyEval_ThreadsInitialized()) {\\n'
                                    '    %s = PyGILState_Ensure();\\n'
                                    '} else {\\n'
                                    '    %s = (PyGILState_STATE) 0;\\n'
                                    '}' % (gil_state_var, gil_state_var))
        self.before_call.add_cleanup_code('if (PyEval_ThreadsInitialized()) {\\n'
                                          '    PyGILState_Release(%s);\\n}' % gil_state_var)
""")
r(4, B, """        ## cleanup and return
        self.after_call.write_cleanup()
        if self.return_value.ctype == 'void':
            self.after_call.write_code('return;')
        else:
            self.after_call.write_code('return retval;')
""", """        ## cleanup and return
        self.after_call.write_cleanup()
        result = ''
        if self.return_value.ctype != 'void':
            result = ' retval'
        self.after_call.write_code('return%s;' % result)
""")
r(4, B, """            self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')

            parse_tuple_params = ['py_retval']
            parse_params = self.parse_params.get_parameters()
            assert parse_params[0][0] == '"'
            parse_params[0] = '(char *) ' + parse_params[0]
            parse_tuple_params.extend(parse_params)
            self.before_call.write_error_check('!PyArg_ParseTuple(%s)' %
                                               (', '.join(parse_tuple_params),),
                                               failure_cleanup='PyErr_Print();')
""", """            self.before_call.write_code('py_retval = Py_BuildValue((char *) "(N)", py_retval);')

            parse_params = self.parse_params.get_parameters()
            format_ = parse_params.pop(0)
            assert format_[0] == '"'
            self.before_call.write_error_check('!PyArg_ParseTuple(%s)' % ', '.join(['py_retval', '(char *) ' + format_] + parse_params),
                                               failure_cleanup='PyErr_Print();')
""")
r(4, IT, """    code_block.write_error_check('%s > %s || %s < %s' % (tmp_var, high, tmp_var, low),
                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
    code_block.write_code("%s = %s;" % (target, tmp_var))
""", """    in_range = '%s >= %s && %s <= %s' % (tmp_var, low, tmp_var, high)
    code_block.write_error_check('!(%s)' % in_range, 'PyErr_SetString(PyExc_ValueError, "Out of range");')
    code_block.write_code("%s = %s;" % (target, tmp_var))
""")
r(4, IT, """class UInt16Return(ReturnValue):
""", """def _write_range_check(code_block, var, low, high):
    code_block.write_error_check('%s < %i || %s > %i' % (var, low, var, high),
                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')


class UInt16Return(ReturnValue):
""")
r(4, IT, """        wrapper.after_call.write_error_check('%s > 0xffff || %s < 0' % (tmp_var, tmp_var),
                                             'PyErr_SetString(PyExc_ValueError, "Out of range");')
        wrapper.after_call.write_code(
            "%s = %s;" % (self.value, tmp_var))

    def convert_c_to_python(self, wrapper):
        wrapper.build_params.add_parameter("i", [self.value], prepend=True)


class Int16Return(ReturnValue):
""", """        _write_range_check(wrapper.after_call, tmp_var, 0, 0xffff)
        wrapper.after_call.write_code("%s = (%s) %s;" % (self.value, self.ctype_no_const, tmp_var))

    def convert_c_to_python(self, wrapper):
        wrapper.build_params.add_parameter("i", [self.value], prepend=True)


class Int16Return(ReturnValue):
""")
r(4, IT, """        name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
        wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
        wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
        wrapper.call_params.append(name)
""", """        name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
        wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
        _write_range_check(wrapper.before_call, name, 0, 0xffff)
        wrapper.call_params.append(name)
""")
r(4, IT, """                wrapper.before_call.write_code(
                    "for (%s = 0; %s < %i; %s++) {" % (idx, idx, self.array_length, idx))
                wrapper.before_call.indent()

                wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                wrapper.before_call.write_error_check(
                        '!PyNumber_Check(%(elem)s)' % vars(),
                        'PyErr_SetString(PyExc_TypeError, "Parameter `%s\\' must be a list of %i ints / longs");'
                        % (self.name, self.array_length))
                wrapper.before_call.write_code("%(name)s[%(idx)s] = (unsigned int) PyLong_AsUnsignedLong(%(elem)s);" % vars())
""", """                wrapper.before_call.write_code("for (%s = 0; %s < %i; ++%s)" % (idx, idx, self.array_length, idx))
                wrapper.before_call.write_code("{")
                wrapper.before_call.indent()

                wrapper.before_call.write_code("%s = PyList_GET_ITEM(%s, %s);" % (elem, py_list, idx))
                wrapper.before_call.write_error_check(
                        '!PyNumber_Check(%(elem)s)' % vars(),
                        'PyErr_SetString(PyExc_TypeError, "Parameter `%s\\' must be a list of %i ints / longs");'
                        % (self.name, self.array_length))
                wrapper.before_call.write_code("%(name)s[%(idx)s] = (unsigned int) PyLong_AsUnsignedLong(%(elem)s);" % vars())
""")
r(4, CA, """        self.before_call.write_code(
            'py_retval = Py_BuildValue((char *) "(O)", value);')
        self.before_call.add_cleanup_code('Py_DECREF(py_retval);')

        if self.setter is not None:
""", """        _write_pack_value(self)

        if self.setter is not None:
""")
r(4, CA, """        self.before_call.write_code(
            'py_retval = Py_BuildValue((char *) "(O)", value);')
        self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
        self.return_value.value = self.c_value
        self.return_value.convert_python_to_c(self)
        parse_tuple_params = ['py_retval']
        params = self.parse_params.get_parameters()
        assert params[0][0] == '"'
        params[0] = '(char *) ' + params[0]
        parse_tuple_params.extend(params)
        self.before_call.write_error_check('!PyArg_ParseTuple(%s)' %
                                           (', '.join(parse_tuple_params),))
""", """        _write_pack_value(self)
        self.return_value.value = self.c_value
        self.return_value.convert_python_to_c(self)
        params = self.parse_params.get_parameters()
        assert params[0][0] == '"'
        self.before_call.write_error_check('!PyArg_ParseTuple(py_retval, (char *) %s)' % ', '.join(params))
""")
r(4, CA, """class CppInstanceAttributeGetter(PyGetter):
""", """def _write_pack_value(setter):
    "the value as a tuple of one element, which PyArg_ParseTuple can read"
    block = setter.before_call
    block.write_code('py_retval = PyTuple_Pack(1, value);')
    block.add_cleanup_code('Py_DECREF(py_retval);')


class CppInstanceAttributeGetter(PyGetter):
""")
r(4, CA, """        if self.getter is None:
            self.c_value = "self->obj->%s" % self.attribute_name
        else:
            self.c_value = "self->obj->%s()" % self.getter
""", """        self.c_value = "self->obj->%s" % (self.attribute_name if self.getter is None else self.getter + "()")
""")
r(4, M, """        exc_name = self.declarations.reserve_variable('exc')
        for exc in self.throw:
            self.before_call.unindent()
            self.before_call.write_code('} catch (%s const &%s) {' % (exc.full_name, exc_name))
            self.before_call.indent()
            self.write_reacquire_gil(self.before_call)
            self.before_call.write_cleanup()
            exc.write_convert_to_python(self.before_call, exc_name)
            self.before_call.write_code('return NULL;')
        self.before_call.unindent()
        self.before_call.write_code('}')

    def _before_call_hook(self):
        "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
        from . import cppclass
        cppclass.implement_parameter_custodians_precall(self)

    def _before_return_hook(self):
        \"\"\"hook that post-processes parameters and check for custodian=<n>
        CppClass parameters\"\"\"
        from . import cppclass
        cppclass.implement_parameter_custodians_postcall(self)

    def _get_pystruct(self):
""", """        exc_name = self.declarations.reserve_variable('exc')
        block = self.before_call
        block.unindent()
        block.write_code('}')
        for exc in self.throw:
            block.write_code('catch (%s const &%s)' % (exc.full_name, exc_name))
            block.write_code('{')
            block.indent()
            code = self.get_reacquire_gil_code()
            if code:
                block.write_code(code)
            block.write_cleanup()
            exc.write_convert_to_python(block, exc_name)
            block.write_code('return NULL;')
            block.unindent()
            block.write_code('}')

    def _before_call_hook(self):
        "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
        from . import cppclass
        cppclass.implement_parameter_custodians_precall(self)

    def _before_return_hook(self):
        \"\"\"hook that post-processes parameters and check for custodian=<n>
        CppClass parameters\"\"\"
        from . import cppclass
        cppclass.implement_parameter_custodians_postcall(self)

    def _get_pystruct(self):
""")
r(4, M, """            else:
                call = ('(%s == NULL)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s))'
                        % (helper,

                           self.method_name, template_params,
                           ", ".join(self.call_params),

                           class_.full_name, self.method_name, template_params,
                           ", ".join(self.call_params)
                           ))
""", """            else:
                args = ", ".join(self.call_params)
                name = self.method_name + template_params
                call = ('%s ? self->obj->%s::%s(%s) : self->obj->%s(%s)'
                        % (helper, class_.full_name, name, args, name, args))
""")
r(4, M, """        if settings._get_deprecated_virtuals():
            self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "_%s"); PyErr_Clear();'
                                        % (py_method, self.method.mangled_name))
        else:
            self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "%s"); PyErr_Clear();'
                                        % (py_method, self.method.mangled_name))
        self.before_call.add_cleanup_code('Py_XDECREF(%s);' % py_method)

        self.before_call.write_code(
            r'if (%s == NULL || Py_TYPE(%s) == &PyCFunction_Type) {' % (py_method, py_method))
""", """        prefix = '_' if settings._get_deprecated_virtuals() else ''
        self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "%s%s");'
                                    % (py_method, prefix, self.method.mangled_name))
        self.before_call.write_code('PyErr_Clear();')
        self.before_call.add_cleanup_code('Py_XDECREF(%s);' % py_method)

        self.before_call.write_code('if (!%s || Py_TYPE(%s) == &PyCFunction_Type) {' % (py_method, py_method))
""")
r(4, M, """        self.before_call.write_code("%s = reinterpret_cast< %s* >(m_pyself)->obj;" %
                                    (self_obj_before, self.class_.pystruct))
""", """        self.before_call.write_code("%s = ((%s *) m_pyself)->obj;" %
                                    (self_obj_before, self.class_.pystruct))
""")
r(4, M, """            self.before_call.write_code("if (Py_TYPE(self) != &%s)" % class_.pytypestruct)
            self.before_call.write_code("{")
            self.before_call.indent()

            class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params),
                                         class_.helper_class.name)
            self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
            self.write_reacquire_gil(self.before_call)
""", """            self.before_call.write_code("if (!(Py_TYPE(self) == &%s)) {" % class_.pytypestruct)
            self.before_call.indent()

            call_params = ", ".join(self.call_params)
            class_.write_create_instance(self.before_call, "self->obj", call_params, class_.helper_class.name)
            self.before_call.write_code("(self)->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
            self.write_reacquire_gil(self.before_call)
""")
r(4, F, """        if self.throw:
            exc_name = self.declarations.reserve_variable('exc')
            for exc in self.throw:
                self.before_call.unindent()
                self.before_call.write_code('} catch (%s const &%s) {' % (exc.full_name, exc_name))
                self.before_call.indent()
                self.write_reacquire_gil(self.before_call)
                self.before_call.write_cleanup()
                exc.write_convert_to_python(self.before_call, exc_name)
                self.before_call.write_code('return NULL;')
            self.before_call.unindent()
            self.before_call.write_code('}')
""", """        if self.throw:
            from .cppmethod import CppMethod
            CppMethod._write_catch_blocks(self)
""")
r(4, C, """    code_block.write_code(
        "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \\"__wards__\\");"
        % vars())
    code_block.write_code(
        "if (%(wards)s == NULL) {\\n"
        "    PyErr_Clear();\\n"
        "    %(wards)s = PyList_New(0);\\n"
        "    PyObject_SetAttrString(%(custodian)s, (char *) \\"__wards__\\", %(wards)s);\\n"
        "}" % vars())
    code_block.write_code(
        "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\\n"
        "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
""", """    code_block.write_code('%s = PyObject_GetAttrString(%s, "__wards__");' % (wards, custodian))
    code_block.write_code("if (!%s) {" % wards)
    code_block.indent()
    code_block.write_code("PyErr_Clear();")
    code_block.write_code("%s = PyList_New(0);" % wards)
    code_block.write_code('PyObject_SetAttrString(%s, "__wards__", %s);' % (custodian, wards))
    code_block.unindent()
    code_block.write_code("}")
    code_block.write_code("if (%s) {\\n    if (PySequence_Contains(%s, %s) == 0)\\n        PyList_Append(%s, %s);\\n}"
                          % (ward, wards, ward, wards, ward))
""")
r(4, C, """def _get_custodian_or_ward(wrapper, num):
    if num == -1:
        assert wrapper.return_value.py_name is not None
        return "((PyObject *) %s)" % wrapper.return_value.py_name
    elif num == 0:
        if not _has_self(wrapper):
            raise TypeConfigurationError("custodian/ward 0 (self) used in a wrapper without self")
        return "((PyObject *) self)"
    else:
        assert wrapper.parameters[num-1].py_name is not None
        return "((PyObject *) %s)" % wrapper.parameters[num-1].py_name
""", """def _get_custodian_or_ward(wrapper, num):
    if num == 0:
        if not _has_self(wrapper):
            raise TypeConfigurationError("custodian/ward 0 (self) used in a wrapper without self")
        name = "self"
    else:
        value = wrapper.return_value if num == -1 else wrapper.parameters[num-1]
        name = value.py_name
        assert name is not None
    return "((PyObject *) %s)" % name
""")
r(4, C, """def implement_parameter_custodians_precall(wrapper):
    for custodian, ward, postcall in wrapper.custodians_and_wards:
        if not postcall:
            _add_ward(wrapper.before_call,
                      _get_custodian_or_ward(wrapper, custodian),
                      _get_custodian_or_ward(wrapper, ward),
                      _get_custodian_condition(wrapper, custodian))


def implement_parameter_custodians_postcall(wrapper):
    for custodian, ward, postcall in wrapper.custodians_and_wards:
        if postcall:
            _add_ward(wrapper.after_call,
                      _get_custodian_or_ward(wrapper, custodian),
                      _get_custodian_or_ward(wrapper, ward),
                      _get_custodian_condition(wrapper, custodian))
""", """def _implement_parameter_custodians(wrapper, code_block, when):
    for custodian, ward, postcall in wrapper.custodians_and_wards:
        if bool(postcall) != when:
            continue
        condition = _get_custodian_condition(wrapper, custodian)
        ward_expr = _get_custodian_or_ward(wrapper, ward)
        _add_ward(code_block, _get_custodian_or_ward(wrapper, custodian), ward_expr, condition)


def implement_parameter_custodians_precall(wrapper):
    _implement_parameter_custodians(wrapper, wrapper.before_call, False)


def implement_parameter_custodians_postcall(wrapper):
    _implement_parameter_custodians(wrapper, wrapper.after_call, True)
""")
r(4, MO, """            for class_ in [c for c in self.classes if c.import_from_module]:
                sink, header_sink = out.get_code_sink_for_wrapper(class_)
                sink.writeln()
                class_.generate(sink, self)
                sink.writeln()
            for class_ in [c for c in self.classes if not c.import_from_module]:
                sink, header_sink = out.get_code_sink_for_wrapper(class_)
                sink.writeln()
                class_.generate(sink, self)
                sink.writeln()
""", """            for class_ in sorted(self.classes, key=lambda c: 0 if c.import_from_module else 1):
                sink, header_sink = out.get_code_sink_for_wrapper(class_)
                sink.writeln()
                class_.generate(sink, self)
                sink.writeln()
""")
r(4, MO, """            self.after_init.write_code('%s = %s();' % (
                    submodule_var, submodule.init_function_name))
            self.after_init.write_error_check('%s == NULL' % submodule_var)
            self.after_init.write_code('Py_INCREF(%s);' % (submodule_var,))
            self.after_init.write_code('PyModule_AddObject(m, (char *) "%s", %s);'
                                       % (submodule.name, submodule_var,))
""", """            self.after_init.write_code('%s = %s();' % (submodule_var, submodule.init_function_name))
            self.after_init.write_error_check('!%s' % submodule_var)
            self.after_init.write_code('Py_INCREF(%(var)s);\\nPyModule_AddObject(m, "%(name)s", %(var)s);'
                                       % dict(var=submodule_var, name=submodule.name))
""")



def main():
    only = [a for a in sys.argv[1:] if a.startswith('C')] or ['C%02d' % i for i in range(1, 21)]
    sets = [int(a) for a in sys.argv[1:] if a.isdigit()] or sorted(set(x[0] for x in R))
    keep = '--tree' in sys.argv
    for n in sets:
        d = tempfile.mkdtemp(prefix='refac')
        if keep:
            print(n, d + '/r')
        shutil.copytree('/repo', d + '/r', symlinks=True)
        shutil.copytree(H, d + '/v', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded'))
        for (s, f, a, b) in R:
            if s != n:
                continue
            p = '%s/r/%s' % (d, f)
            t = open(p).read()
            if t.count(a) != 1:
                print('** STALE', n, f, a[:80])
                continue
            open(p, 'w').write(t.replace(a, b))
        subprocess.call('cp -a %s/r/.  /dev/null 2>/dev/null; cd %s/r && python3 -m compileall -q pybindgen >/dev/null || echo "** does not compile"' % (d, d), shell=True)
        if keep:
            continue
        env = dict(os.environ, PYVC_REPO=d + '/r', VERIF_TIER='quick')
        env.pop('VERIF_REEXEC', None)
        ps = {}
        todo = list(only)
        run = {}
        while todo or run:
            while todo and len(run) < 4:
                c = todo.pop(0)
                run[c] = subprocess.Popen(['python3', 'check.py', c], cwd=d + '/v', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            for c in list(run):
                if run[c].poll() is not None:
                    out = run[c].stdout.read()
                    rc = run.pop(c).returncode
                    print(n, c, rc, '' if rc == 0 else out[-900:])
                    sys.stdout.flush()
                    break
            else:
                import time
                time.sleep(.3)
        shutil.rmtree(d)


main()
