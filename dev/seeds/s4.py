import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
SEEDS = [
dict(id='c17-nested-exception', property='C17', file='pybindgen/cppexception.py', edits=[(
"""                self.pytypestruct, self.outer_class.pytypestruct, self.python_name, self.pytypestruct))""",
"""                self.pytypestruct, self.outer_class.pytypestruct, self.python_full_name, self.pytypestruct))""")],
 needs='an exception nested in a class',
 breaks='the exception is put into its class under a dotted name',
 demo=GEN+'''
mod = Module('m')
o = mod.add_class('Outer')
o.add_constructor([])
mod.add_exception('Bad', outer_class=o)
text = gen(mod)
names = re.findall(r'tp_dict, \\(char \\*\\) "([^"]+)", \\(PyObject \\*\\) Py', text)
assert names == ['Bad'], names
'''),
dict(id='c17-nested-custom-name', property='C17', file=C, edits=[(
"""                'PyDict_SetItemString((PyObject*) %s.tp_dict, (char *) \\"%s\\", (PyObject *) &%s);' % (
                self.outer_class.pytypestruct, class_python_name, self.pytypestruct))""",
"""                'PyDict_SetItemString((PyObject*) %s.tp_dict, (char *) \\"%s\\", (PyObject *) &%s);' % (
                self.outer_class.pytypestruct, self.name, self.pytypestruct))""")],
 needs='a class nested in another class, with a custom name',
 breaks='the nested class is registered under its C++ name',
 demo=GEN+'''
mod = Module('m')
o = mod.add_class('Outer')
o.add_constructor([])
i = mod.add_class('In<int>', outer_class=o, custom_name='InOfInt')
i.add_constructor([])
text = gen(mod)
names = re.findall(r'tp_dict, \\(char \\*\\) "([^"]+)", \\(PyObject \\*\\) &', text)
assert names == ['InOfInt'], names
'''),
dict(id='c18-one-ward-per-custodian', property='C18', file=C, edits=[(
"""    for custodian, ward, postcall in wrapper.custodians_and_wards:
        if postcall:
            _add_ward(""",
"""    relations = dict((custodian, (ward, postcall)) for (custodian, ward, postcall) in wrapper.custodians_and_wards)
    for custodian, (ward, postcall) in relations.items():
        if postcall:
            _add_ward(""")],
 needs='two post-call relations with the same custodian and different wards',
 breaks='only the last ward is kept alive',
 demo=GEN+'''
mod = Module('m')
w = mod.add_class('W')
w.add_constructor([])
h = mod.add_class('H', allow_subclassing=True)
h.add_constructor([])
f = mod.add_function('join', retval('void'), [param('H&', 'h'), param('W&', 'a'), param('W&', 'b')])
f.add_custodian_and_ward(1, 2, postcall=True)
f.add_custodian_and_ward(1, 3, postcall=True)
t = func(gen(mod), r'_wrap_m_join')
n = len(re.findall(r'PyList_Append', t))
assert n == 2, n
'''),
dict(id='c18-internal-reference-skipped', property='C18', file=C, edits=[(
"""        wrapper.add_custodian_and_ward(custodian, -1)

    if getattr(wrapper.return_value, "return_internal_reference", False):""",
"""        wrapper.add_custodian_and_ward(custodian, -1)

    elif getattr(wrapper.return_value, "return_internal_reference", False):""")],
 needs='a method whose result is declared both with a custodian and as an internal reference',
 breaks='the returned wrapper does not keep the object it points into alive',
 demo=GEN+'''
mod = Module('m')
w = mod.add_class('W', allow_subclassing=True)
w.add_constructor([])
h = mod.add_class('H', allow_subclassing=True)
h.add_constructor([])
h.add_method('part', retval('W*', custodian=1, return_internal_reference=True), [param('H&', 'other')])
t = func(gen(mod), r'_wrap_PyH_part')
n = len(re.findall(r'PyList_Append', t))
assert n == 2, n
'''),
]
