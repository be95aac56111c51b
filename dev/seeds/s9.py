import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
C = 'pybindgen/cppclass.py'
WR = 'pybindgen/wrapper_registry.py'
RUN = GEN + '''
import pybindgen.settings as settings_
from pybindgen.wrapper_registry import StdMapWrapperRegistry
settings_.wrapper_registry = StdMapWrapperRegistry
def body(text, name):
    i = text.index(name + '(')
    return text[i:text.index('\\n}', i)]
'''
SEEDS = [
dict(id='c20-transfer-record', property='C20', file=C, edits=[(
"""                wrapper.after_call.write_code('if (%s) {' % value_ptr)
                wrapper.after_call.indent()
                if self.cpp_class.memory_policy is not None:
                    self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
                                                                            '%s' % self.py_name,
                                                                            self.cpp_class.memory_policy.get_pointer_to_void_name('%s->obj' % self.py_name))
                else:
""",
"""                wrapper.after_call.write_code('if (%s) {' % value_ptr)
                wrapper.after_call.indent()
                if self.cpp_class.memory_policy is None:
""")],
 needs='a registry, and a parameter that takes ownership of an object of a class with a memory policy of its own that does not count references',
 breaks='the wrapper that gave its object away stays recorded for the address: the next object there is presented as the dead wrapper',
 demo=RUN+"""
from pybindgen.cppclass import FreeFunctionPolicy
mod = Module('m')
c = mod.add_class('K', memory_policy=FreeFunctionPolicy('k_free')); c.add_constructor([])
mod.add_function('take', None, [param('K *', 'x', transfer_ownership=True)])
f = body(gen(mod), '_wrap_m_take')
assert f.count('PyK_wrapper_registry') >= 1, f
"""),
dict(id='c20-last-base-registry', property='C20', file=C, edits=[(
"            return self.parent._get_wrapper_registry()\n",
"            return self.bases[-1]._get_wrapper_registry()\n")],
 needs='a registry, and a class with two bases (one base is the same base either way)',
 breaks='objects of the derived class are recorded in the registry of its second base, but looked up and removed through the first: two wrappers for one object',
 demo=RUN+"""
mod = Module('m')
a = mod.add_class('A'); a.add_constructor([])
b = mod.add_class('B'); b.add_constructor([])
d = mod.add_class('D', parent=[a, b]); d.add_constructor([])
mod.add_function('get', retval('D *', caller_owns_return=True), [])
f = body(gen(mod), '_wrap_m_get')
assert 'PyA_wrapper_registry' in f and 'PyB_wrapper_registry' not in f, f
"""),
dict(id='c20-import-name', property='C20', file=WR, edits=[(
"""        code_block.write_code("PyObject *_cobj = PyObject_GetAttrString(%s, (char*) \\"_%s\\");\"""",
"""        code_block.write_code("PyObject *_cobj = PyObject_GetAttrString(%s, (char*) \\"%s\\");\"""")],
 needs='two modules: one that publishes a class with a registry, another that imports it',
 breaks='the registry of the other module is not found, the wrapper code uses a NULL map',
 demo=RUN+"""
m1 = Module('m'); c = m1.add_class('K'); c.add_constructor([])
t1 = gen(m1)
pub = re.search(r'PyModule_AddObject\\(m, \\(char \\*\\) "(\\w*wrapper_registry)"', t1).group(1)
m2 = Module('n'); c = m2.add_class('K', import_from_module='m')
m2.add_function('get', retval('K *', caller_owns_return=True), [])
t2 = gen(m2)
got = re.search(r'PyObject_GetAttrString\\(module, \\(char ?\\*\\) "(\\w*wrapper_registry)"', t2).group(1)
assert pub == got, (pub, got)
"""),
]
