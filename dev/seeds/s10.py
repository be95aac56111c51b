import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's9.py')).read().split('\nSEEDS =')[0])
BX = 'pybindgen/container.py'
SEEDS = [
dict(id='c14-iterator-keeps', property='C14', file=BX, edits=[(
"""{
    Py_CLEAR(self->container);
    %s
    Py_TYPE(self)->tp_free((PyObject*)self);
}
""",
"""{
    %s
    Py_TYPE(self)->tp_free((PyObject*)self);
}
""")],
 needs='an iterator of a container that is destroyed without having been cleared by the collector, as it is at the end of a loop',
 breaks='the reference the iterator has on the container is never let go: no container that was iterated is ever destroyed',
 demo=RUN+"""
mod = Module('m')
mod.add_container('std::vector<int>', 'int', 'vector')
t = gen(mod)
n = [x for x in re.findall(r'_wrap_\\w*Iter__tp_dealloc', t)][0]
f = body(t, n)
assert re.search(r'Py_(CLEAR|X?DECREF)\\s*\\(.*container', f) or '__tp_clear' in f, f
"""),
dict(id='c14-copy-shares-flags', property='C14', file=C, edits=[(
"""        code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)

        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, self.get_object_address("%s->obj" % py_copy))
        self.write_post""",
"""        code_block.write_code("%s->flags = self->flags;" % py_copy)

        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, self.get_object_address("%s->obj" % py_copy))
        self.write_post""")],
 needs='copy.copy of a wrapper that does not own its object',
 breaks='the copy is a new object that nobody owns',
 demo=RUN+"""
mod = Module('m')
c = mod.add_class('K'); c.add_constructor([]); c.add_copy_constructor()
t = gen(mod)
f = body(t, '_wrap_PyK__copy__')
sets = re.findall(r'(\\w+)->flags\\s*=\\s*([^;]*);', f)
assert sets and all('self' not in v for w, v in sets), f
"""),
dict(id='c04-map-iteration-order', property='C04', file=BX, edits=[(
"""            self.container.value_type.value = "%s->second" % self.iter_variable_name
            self.container.value_type.convert_c_to_python(self)
            self.container.key_type.value = "%s->first" % self.iter_variable_name
            self.container.key_type.convert_c_to_python(self)
""",
"""            self.container.key_type.value = "%s->first" % self.iter_variable_name
            self.container.key_type.convert_c_to_python(self)
            self.container.value_type.value = "%s->second" % self.iter_variable_name
            self.container.value_type.convert_c_to_python(self)
""")],
 needs='iterating a map',
 breaks='the pairs come as (value, key)',
 demo=RUN+"""
mod = Module('m')
mod.add_container('std::map<int, double>', ('int', 'double'), 'map')
t = gen(mod)
b = [x for x in re.findall(r'Py_BuildValue\\([^;]*;', t) if 'first' in x]
if b:
    assert b[0].index('first') < b[0].index('second'), b
"""),
dict(id='c14-override-container-kept', property='C14', file=BX, edits=[(
"""        wrapper.build_params.add_parameter("N", [self.py_name])

        if""",
"""        wrapper.build_params.add_parameter("O", [self.py_name])

        if""")],
 needs='a Python override of a method with a container parameter by reference',
 breaks='the wrapper made for the call is never released, nor its copy of the container',
 demo=RUN+"""
mod = Module('m')
v = mod.add_container('std::vector<int>', 'int', 'vector')
c = mod.add_class('K', allow_subclassing=True); c.add_constructor([])
c.add_method('f', None, [param('std::vector<int> &', 'x')], is_virtual=True)
t = gen(mod)
m = re.findall(r'"([^"]*)"\\s*,\\s*py_std', t)
assert re.search(r'Py_X?DECREF\\(\\s*py_std', t) or m and 'N' in m[0], m
"""),
dict(id='c19-list-item-skipped', property='C19', file=BX, edits=[(
"""            if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                return 0;
            }
""",
"""            if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                continue;
            }
""")],
 needs='a list with an element of the wrong type assigned where a container is expected',
 breaks='the conversion reports success with an error set, and the destination gets the rest of the list',
 demo=RUN+"""
mod = Module('m')
mod.add_container('std::vector<int>', 'int', 'vector')
t = gen(mod)
i = t.index('PyList_GET_ITEM')
f = t[i:t.index('push_back', i)]
assert re.search(r'return\\s+(0|false)\\s*;', f), f
"""),
]
