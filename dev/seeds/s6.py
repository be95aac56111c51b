import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
U = 'pybindgen/utils.py'
O = 'pybindgen/overloading.py'
SEEDS = [
dict(id='c16-templated-function-custom', property='C16', file='pybindgen/function.py', edits=[(
"        if self.mangled_name != utils.get_mangled_name(self.function_name, self.template_parameters):\n            return self.mangled_name\n",
"        if self.mangled_name != utils.mangle_name(self.function_name):\n            return self.mangled_name\n")],
 needs='a templated function without a custom name, or with one equal to its bare name',
 breaks='a function with no custom name reports one; one with a custom name equal to its bare name reports none',
 demo='''
from pybindgen.function import Function
f = Function('f', None, [], template_parameters=['int'])
assert f.custom_name is None, f.custom_name
f.custom_name = 'f'
assert f.custom_name == 'f'
'''),
dict(id='c16-template-params-of-class', property='C16', file=C, edits=[(
"        def mangle(name):\n            return mangle_name(name)\n",
"        def mangle(name):\n            if '<' in name:\n                return mangle_name(name)\n            return name.replace(' ', '_').replace('&', '__amp__')\n")],
 needs='a class template whose argument is a pointer type',
 breaks='the names of the C symbols of the class contain *',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('Box', template_parameters=['int *'])
assert re.match(r'^[A-Za-z_]\\w*$', c.pystruct), c.pystruct
'''),
dict(id='c08-docstring-set-kept', property='C08', file=O, edits=[(
"""                try:
                    wrapper_flags = utils.call_with_error_handling(
                        wrapper.get_py_method_def_flags, args=(), kwargs={}, wrapper=wrapper)
                except utils.SkipWrapper:
                    modified = True
                    self.wrappers.remove(wrapper)
                    break
""",
"""                try:
                    wrapper_flags = utils.call_with_error_handling(
                        wrapper.get_py_method_def_flags, args=(), kwargs={}, wrapper=wrapper)
                except utils.SkipWrapper:
                    modified = True
                    del self.wrappers[self.wrappers.index(wrapper):]
                    break
""")],
 needs='an overload set in which an overload other than the last cannot be generated and the error handler skips it',
 breaks='the overloads declared after the failing one are dropped too',
 demo=GEN+'''
import pybindgen.settings as settings
from pybindgen.typehandlers.base import CodeGenerationError
from pybindgen.typehandlers.inttype import IntParam
class H(settings.ErrorHandler):
    def handle_error(self, wrapper, exception, traceback_):
        return True
settings.error_handler = H()
class Bad(IntParam):
    CTYPES = []
    def convert_python_to_c(self, wrapper):
        raise CodeGenerationError('no')
mod = Module('m')
mod.add_function('f', None, [param('double', 'x')])
mod.add_function('f', None, [Bad('int', 'x')])
mod.add_function('f', None, [param('int', 'a'), param('int', 'b')])
t = gen(mod)
assert 'f(a, b)' in t and 'f(x)' in t
'''),
dict(id='c08-not-supported-param', property='C08', file=U, edits=[(
"""        args, kwargs = parse_param_spec(param_value)
        return call_with_error_handling(Parameter.new, args, kwargs, wrapper,
                                        exceptions_to_handle=(TypeConfigurationError,
                                                              NotSupportedError,
                                                              TypeLookupError))
""",
"""        args, kwargs = parse_param_spec(param_value)
        return call_with_error_handling(Parameter.new, args, kwargs, wrapper,
                                        exceptions_to_handle=(TypeConfigurationError,
                                                              TypeLookupError))
""")],
 needs='a parameter whose handler is not supported, such as a pointer to a class with ward of a return value, and an error handler',
 breaks='a not-supported error is not offered to the handler',
 demo=GEN+'''
import pybindgen.settings as settings
from pybindgen.typehandlers.base import NotSupportedError, Parameter
class H(settings.ErrorHandler):
    def handle_error(self, wrapper, exception, traceback_):
        return True
settings.error_handler = H()
class Bad(Parameter):
    DIRECTIONS = [Parameter.DIRECTION_IN]
    CTYPES = ['BadThing']
    def __init__(self, *a, **k):
        raise NotSupportedError('no')
mod = Module('m')
mod.add_function('f', None, [param('BadThing', 'x')])
mod.add_function('g', None, [param('int', 'x')])
t = gen(mod)
assert '_wrap_m_g' in t and '_wrap_m_f(' not in t
'''),
dict(id='c08-getter-before-failure', property='C08', file='pybindgen/cppattribute.py', edits=[(
"""            if getter is not None:
                # getter.generate(code_sink)
                try:
                    utils.call_with_error_handling(getter.generate, (code_sink,), {}, getter)
                except utils.SkipWrapper:
                    pass
                else:
                    getter_name = getter.c_function_name
""",
"""            if getter is not None:
                # getter.generate(code_sink)
                try:
                    utils.call_with_error_handling(getter.generate, (code_sink,), {}, getter)
                except utils.SkipWrapper:
                    pass
                if getter.c_function_name is not None:
                    getter_name = getter.c_function_name
""")],
 needs='an attribute whose getter cannot be generated and an error handler that skips it',
 breaks='the table of attributes refers to a getter that was not emitted',
 demo=GEN+'''
import pybindgen.settings as settings
from pybindgen.typehandlers.base import CodeGenerationError
from pybindgen.typehandlers.inttype import IntReturn
class H(settings.ErrorHandler):
    def handle_error(self, wrapper, exception, traceback_):
        return True
settings.error_handler = H()
class Bad(IntReturn):
    CTYPES = []
    def convert_c_to_python(self, wrapper):
        raise CodeGenerationError('no')
mod = Module('m')
c = mod.add_class('K')
c.add_constructor([])
c.add_instance_attribute('x', Bad('int'))
t = gen(mod)
for n in re.findall(r'\\(getter\\) (\\w+)', t):
    assert n == 'NULL' or re.search(r'^static PyObject.* ?%s\\(' % n, t, re.M), n
'''),
]
