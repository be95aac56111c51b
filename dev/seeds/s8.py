import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
C = 'pybindgen/cppclass.py'
RUN = GEN + '''
def body(text, name):
    i = text.index(name + '(')
    return text[i:text.index('\\n}', i)]
'''

REFM = """
from pybindgen.cppclass import ReferenceCountingMethodsPolicy, FreeFunctionPolicy
REFM = ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref')
"""
SEEDS = [
dict(id='c14-second-base-policy', property='C14', file=C, edits=[(
"            for base in self.bases:\n                if base.memory_policy is not None:\n                    self.memory_policy = base.memory_policy\n",
"            for base in self.bases[:1]:\n                if base.memory_policy is not None:\n                    self.memory_policy = base.memory_policy\n")],
 needs='a class with two bases of which only the second has a memory policy (reference counting)',
 breaks='the class is freed with delete although its objects are reference counted: shared objects are destroyed early or twice',
 demo=RUN+REFM+"""
mod = Module('m')
a = mod.add_class('A'); a.add_constructor([])
b = mod.add_class('B', memory_policy=REFM); b.add_constructor([])
d = mod.add_class('D', parent=[a, b]); d.add_constructor([])
t = gen(mod)
f = body(t, '_wrap_PyD__tp_dealloc')
assert 'Unref' in f and 'delete' not in f, f
"""),
dict(id='c14-const-counted-override', property='C14', file=C, edits=[(
"                self.cpp_class.memory_policy.write_incref(wrapper.after_call, value)\n                if self.type_traits.target_is_const:\n                    wrapper.after_call.write_code(\n                        \"%s = const_cast< %s* >(%s);\" %\n                        (self.value, self.cpp_class.full_name, value))\n                else:\n",
"                if self.type_traits.target_is_const:\n                    wrapper.after_call.write_code(\n                        \"%s = const_cast< %s* >(%s);\" %\n                        (self.value, self.cpp_class.full_name, value))\n                else:\n                    self.cpp_class.memory_policy.write_incref(wrapper.after_call, value)\n")],
 needs='a virtual method that returns a const pointer to a reference counted class, owned by the caller, overridden in Python',
 breaks='the C++ caller is told it owns a reference that nobody took: the object is released once too often',
 demo=RUN+REFM+"""
mod = Module('m')
b = mod.add_class('B', memory_policy=REFM); b.add_constructor([])
v = mod.add_class('V', allow_subclassing=True); v.add_constructor([])
v.add_method('get', retval('B const *', caller_owns_return=True), [], is_virtual=True)
f = body(gen(mod), 'PyV__PythonHelper::get')
assert '->Ref()' in f, f
"""),
dict(id='c14-override-keeps', property='C14', file=C, edits=[(
"                        wrapper.after_call, name, self.cpp_class.get_object_address(\"%s->obj\" % name))\n                    wrapper.after_call.write_code(\n                        \"%s = NULL;\" % (value,))\n",
"                        wrapper.after_call, name, self.cpp_class.get_object_address(\"%s->obj\" % name))\n                    if self.cpp_class.helper_class is None:\n                        wrapper.after_call.write_code(\n                            \"%s = NULL;\" % (value,))\n")],
 needs='an override that returns, to a caller that owns the result, an object of a class that cannot be copied and can be subclassed in Python',
 breaks='the Python wrapper and the C++ caller both own the object: it is destroyed twice',
 demo=RUN+"""
mod = Module('m')
b = mod.add_class('B', allow_subclassing=True); b.add_constructor([]); b.add_method('f', None, [], is_virtual=True)
v = mod.add_class('V', allow_subclassing=True); v.add_constructor([])
v.add_method('get', retval('B *', caller_owns_return=True), [], is_virtual=True)
f = body(gen(mod), 'PyV__PythonHelper::get')
assert re.search(r'tmp_B->obj = NULL', f), f
"""),
]
