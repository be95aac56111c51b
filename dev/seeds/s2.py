B = 'pybindgen/typehandlers/base.py'
I = 'pybindgen/typehandlers/inttype.py'
C = 'pybindgen/cppclass.py'
M = 'pybindgen/cppmethod.py'
GEN = '''
import io, re, sys
from pybindgen import Module, param, retval
from pybindgen.typehandlers.codesink import FileCodeSink


def gen(mod):
    out = io.StringIO()
    mod.generate(FileCodeSink(out))
    return out.getvalue()


def func(text, name):
    "source text of the emitted function whose name matches"
    m = re.search(r'^[^\\n;]*\\b(?:%s)\\s*\\([^;]*?\\)[^;\\n]*\\n\\{\\n.*?^\\}' % name, text, re.S | re.M)
    assert m, name
    return m.group(0)

'''
SEEDS = [
dict(id='c06-stop-at-unknown', property='C06', file=B, edits=[(
"                    tried_names.append(untransformed_name)\n                    continue\n",
"                    tried_names.append(untransformed_name)\n                    break\n")],
 needs='two registered transformations that both apply, the first leading to an unknown type',
 breaks='a type reachable through the second transformation is not found',
 demo='''
from pybindgen.typehandlers.base import TypeMatcher, TypeTransformation
class T(TypeTransformation):
    def __init__(self, n): self.n = n
    def get_untransformed_name(self, name):
        return str(name)[self.n:] if str(name).startswith('BB') else None
m = TypeMatcher()
m.register('Known', 7)
m.register_transformation(T(1))
t = T(2)
m.register_transformation(t)
try:
    r = m.lookup('BBKnown')
except KeyError:
    raise SystemExit('not found through the second transformation')
assert r[0] == 7 and r[1] is t, r
'''),
dict(id='c11-ull-override', property='C11', file=I, edits=[(
"class UnsignedLongLongReturn(ReturnValue):\n\n    CTYPES = ['unsigned long long', 'uint64_t', 'long long unsigned int']\n\n    def get_c_error_return(self):\n        return \"return 0;\"\n    \n    def convert_python_to_c(self, wrapper):\n        wrapper.parse_params.add_parameter(\"K\"",
"class UnsignedLongLongReturn(ReturnValue):\n\n    CTYPES = ['unsigned long long', 'uint64_t', 'long long unsigned int']\n\n    def get_c_error_return(self):\n        return \"return 0;\"\n    \n    def convert_python_to_c(self, wrapper):\n        wrapper.parse_params.add_parameter(\"L\"")],
 needs='a virtual method returning unsigned long long, overridden in Python',
 breaks='the result of the override is parsed with the signed unit into an unsigned variable',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K', allow_subclassing=True)
c.add_constructor([])
c.add_method('big', retval('unsigned long long'), [], is_virtual=True)
t = func(gen(mod), r'PyK__PythonHelper::big')
units = re.findall(r'PyArg_ParseTuple\\(py_retval, \\(char \\*\\) "(.)"', t)
assert units == ['K'], units
'''),
dict(id='c11-default-string-length', property='C11', file='pybindgen/typehandlers/stringtype.py', edits=[(
'''            name = wrapper.declarations.declare_variable("const char *", self.name, 'NULL')
            name_len = wrapper.declarations.declare_variable("Py_ssize_t", self.name+'_len')
            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value, optional=True)
            wrapper.call_params.append('(%s ? std::string(''',
'''            name = wrapper.declarations.declare_variable("const char *", self.name, 'NULL')
            name_len = wrapper.declarations.declare_variable("int", self.name+'_len', '0')
            wrapper.parse_params.add_parameter('s#', ['&'+name, '&'+name_len], self.value, optional=True)
            wrapper.call_params.append('(%s ? std::string(''')],
 needs='a std::string parameter passed by value and declared with a default',
 breaks='the length unit writes a Py_ssize_t into an int variable',
 demo=GEN+'''
mod = Module('m')
mod.add_function('f', None, [param('std::string', 's', default_value='std::string("x")')])
t = func(gen(mod), '_wrap_m_f')
assert '"|s#"' in t, t
assert re.search(r'Py_ssize_t\\s+s_len\\b', t), t
'''),
dict(id='c12-void-pure', property='C12', file=M, edits=[(
'''            if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
                self.before_call.write_code(r'    %s::%s(%s);'
                                            % (self.class_.full_name, self.method_name, call_params))
            self.before_call.indent()
            self.before_call.write_cleanup()
            self.before_call.write_code('return;')
            self.before_call.unindent()
''',
'''            self.before_call.indent()
            if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
                self.before_call.write_code(r'%s::%s(%s);'
                                            % (self.class_.full_name, self.method_name, call_params))
                self.before_call.write_cleanup()
            self.before_call.write_code('return;')
            self.before_call.unindent()
''')],
 needs='a pure virtual method returning nothing that the Python subclass does not define',
 breaks='the virtual proxy returns without giving the interpreter lock back',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K', allow_subclassing=True)
c.add_constructor([])
c.add_method('run', None, [], is_virtual=True, is_pure_virtual=True)
t = func(gen(mod), r'PyK__PythonHelper::run')
part = t[t.index('py_method == NULL'):]
part = part[:part.index('return;')]
assert 'PyGILState_Release' in part, t
'''),
dict(id='c12-hook-after-unlock', property='C12', file=B, edits=[(
'''        self._before_call_hook()

        ## nothing can fail any more before the call
        for write_transfer in self.transfers:
            write_transfer(self.before_call)

        if self.unblock_threads:
            self.before_call.write_code(
                "\\nif (PyEval_ThreadsInitialized ())\\n"
                "     %s = PyEval_SaveThread();\\n"
                % (py_thread_state, ))

''',
'''        ## nothing can fail any more before the call
        for write_transfer in self.transfers:
            write_transfer(self.before_call)

        if self.unblock_threads:
            self.before_call.write_code(
                "\\nif (PyEval_ThreadsInitialized ())\\n"
                "     %s = PyEval_SaveThread();\\n"
                % (py_thread_state, ))

        self._before_call_hook()

''')],
 needs='a wrapper that releases the lock and has a custodian/ward relation between its arguments',
 breaks='the ward is recorded (Python API) while the interpreter lock is released',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K', allow_subclassing=True)
c.add_constructor([])
f = mod.add_function('f', None, [param('K*', 'a', transfer_ownership=False), param('K*', 'b', transfer_ownership=False)],
                     unblock_threads=True)
f.add_custodian_and_ward(1, 2)
t = func(gen(mod), '_wrap_m_f')
assert t.index('__wards__') < t.index('PyEval_SaveThread'), t
'''),
dict(id='c13-sorted-handlers', property='C13', file='pybindgen/function.py', edits=[(
"            for exc in self.throw:\n", "            for exc in sorted(self.throw, key=lambda ex: ex.full_name):\n")],
 needs='a function declaring a derived exception before its base, where the base sorts first',
 breaks='handlers come in another order than declared, so the base class handler wins',
 demo=GEN+'''
mod = Module('m')
base = mod.add_exception('ABase')
derived = mod.add_exception('ZDerived')
mod.add_function('f', None, [], throw=[derived, base])
t = func(gen(mod), '_wrap_m_f')
got = re.findall(r'catch \\((?:::)?(\\w+) const', t)
assert got == ['ZDerived', 'ABase'], got
'''),
dict(id='c13-same-name', property='C13', file='pybindgen/function.py', edits=[(
"        self.throw = list(throw)\n",
"        self.throw = list(dict((t.name, t) for t in throw).values())\n")],
 needs='a function that throws two exceptions of the same name from different namespaces',
 breaks='one of the two handlers is dropped',
 demo=GEN+'''
mod = Module('m')
e1 = mod.add_cpp_namespace('a').add_exception('Err')
e2 = mod.add_cpp_namespace('b').add_exception('Err')
mod.add_function('f', None, [], throw=[e1, e2])
t = func(gen(mod), '_wrap_m_f')
got = re.findall(r'catch \\((?:::)?([\\w:]+) const', t)
assert got == ['a::Err', 'b::Err'], got
'''),
]
