import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
SEEDS = [
dict(id='c10-int16-min', property='C10', file=I, edits=[("'%s > 32767 || %s < -32768' % (tmp_var", "'%s > 32767 || %s <= -32768' % (tmp_var")],
 needs='a virtual method returning int16_t whose Python override returns exactly -32768 (or a setter given it)',
 breaks='the smallest int16_t is refused as out of range',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K', allow_subclassing=True)
c.add_constructor([])
c.add_method('lo', retval('int16_t'), [], is_virtual=True)
t = func(gen(mod), r'PyK__PythonHelper::lo')
cond = re.search(r'if \\((tmp\\w* > .*)\\)', t).group(1)
var = re.match(r'tmp\\w*', cond).group(0)
expr = cond.replace('||', 'or').replace('&&', 'and')
bad = [v for v in (-32769, -32768, -32767, 0, 32766, 32767, 32768) if bool(eval(expr, {var: v})) != (not -32768 <= v <= 32767)]
assert not bad, (cond, bad)
'''),
dict(id='c04-override-object', property='C04', file='pybindgen/typehandlers/pyobjecttype.py', edits=[(
'wrapper.parse_params.add_parameter("O", ["&"+self.value], prepend=True)', 'wrapper.parse_params.add_parameter("O", ["&"+self.value])')],
 needs='a virtual method that returns PyObject* and has an output parameter, overridden in Python',
 breaks='the result of the override is unpacked with the output parameter first',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K', allow_subclassing=True)
c.add_constructor([])
c.add_method('get', retval('PyObject*', caller_owns_return=True), [param('int&', 'x', direction=2)], is_virtual=True)
t = func(gen(mod), r'PyK__PythonHelper::get')
units = re.findall(r'PyArg_ParseTuple\\(py_retval, \\(char \\*\\) "([^"]*)"', t)
assert units == ['Oi'], units
'''),
dict(id='c04-vector-out-first', property='C04', file='pybindgen/container.py', edits=[(
"""            wrapper.build_params.add_parameter("N", [py_name])

        else:
            raise NotSupportedError("inout not supported""",
"""            wrapper.build_params.add_parameter("N", [py_name], prepend=True)

        else:
            raise NotSupportedError("inout not supported""")],
 needs='two output parameters, a container pointer after another one',
 breaks='the container comes before the output parameter declared ahead of it',
 demo=GEN+'''
mod = Module('m')
mod.add_container('std::vector< int >', 'int', 'vector')
mod.add_function('f', retval('double'), [param('int&', 'a', direction=2), param('std::vector< int > *', 'v', direction=2)])
t = func(gen(mod), r'_wrap_m_f')
units = re.findall(r'Py_BuildValue\\(\\(char \\*\\) "([^"]*)"', t)
assert units == ['diN'], units
'''),
]

SEEDS += [
dict(id='c09-release-two', property='C09', file='pybindgen/overloading.py', edits=[(
"                for i in range(number):\n                    code_sink.writeln(\"Py_DECREF(exceptions[%i]);\" % i)",
"                for i in range(min(number, 2)):\n                    code_sink.writeln(\"Py_DECREF(exceptions[%i]);\" % i)")],
 needs='four overloads of which the first three refuse their arguments',
 breaks='the exception of the third overload is never released',
 demo=GEN+"""
mod = Module('m')
for i, t in enumerate(['int', 'double', 'bool', 'char', 'float']):
    mod.add_function('f', None, [param(t, 'a%d' % i)] * 1)
t = func(gen(mod), r'_wrap_m_f')
blocks = re.findall(r'if \\(!exceptions\\[(\\d+)\\]\\) \\{(.*?)return retval', t, re.S)
assert len(blocks) == 5, t
for n, b in blocks:
    assert b.count('DECREF(exceptions') == int(n), (n, b)
"""),
dict(id='c09-fewest-first', property='C09', file='pybindgen/overloading.py', edits=[(
"        self.all_wrappers = list(self.wrappers)\n",
"        self.all_wrappers = sorted(self.wrappers, key=lambda w: w.deprecated not in (None, False))\n")],
 needs='a deprecated overload declared before another one',
 breaks='deprecated overloads are tried last instead of in declaration order',
 demo=GEN+"""
mod = Module('m')
mod.add_function('f', None, [param('int', 'a')], deprecated=True)
mod.add_function('f', None, [param('double', 'b')])
t = gen(mod)
assert '"a"' in func(t, r'_wrap_m_f__0'), t
"""),
dict(id='c09-conversion-stops', property='C09', file='pybindgen/cppclass.py', edits=[(
"""                    wrapper.before_call.write_error_return()
                    wrapper.before_call.unindent()
                    wrapper.before_call.write_code("}")

                    wrapper.call_params.append(tmp_value_variable)""",
"""                    wrapper.before_call.write_cleanup()
                    wrapper.before_call.write_code(wrapper.after_call.error_return)
                    wrapper.before_call.unindent()
                    wrapper.before_call.write_code("}")

                    wrapper.call_params.append(tmp_value_variable)""")],
 needs='an overload with a reference parameter of a class that other classes convert to, given something else, before an overload that accepts it',
 breaks='the call ends with a TypeError instead of trying the next overload',
 demo=GEN+"""
mod = Module('m')
k = mod.add_class('K'); k.add_constructor([]); k.add_copy_constructor()
s = mod.add_class('S'); s.add_constructor([])
s.implicitly_converts_to(k)
mod.add_function('f', None, [param('K const &', 'a')])
mod.add_function('f', None, [param('int', 'a')])
t = func(gen(mod), r'_wrap_m_f__0')
i = t.index('parameter must an instance')
assert 'return_exception' in t[i:], t
"""),
]
