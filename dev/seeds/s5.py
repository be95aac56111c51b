import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
SEEDS = [
dict(id='c19-getter-means-constant', property='C19', file=C, edits=[(
"""        getter_wrapper = CppInstanceAttributeGetter(value_type, self, name, getter=getter)
        getter_wrapper.stack_where_defined = traceback.extract_stack()
        if is_const:
            setter_wrapper = None
            assert setter is None
""",
"""        getter_wrapper = CppInstanceAttributeGetter(value_type, self, name, getter=getter)
        getter_wrapper.stack_where_defined = traceback.extract_stack()
        if is_const or (getter is not None and setter is None):
            setter_wrapper = None
            assert setter is None
""")],
 needs='an instance attribute with a getter method and no setter method that is not declared constant',
 breaks='the attribute cannot be written',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K')
c.add_constructor([])
c.add_instance_attribute('x', retval('int'), getter='GetX')
text = gen(mod)
assert re.search(r'\\(setter\\) _wrap_PyK__set_x', text), 'no setter'
'''),
dict(id='c19-setter-template', property='C19', file='pybindgen/cppcustomattribute.py', edits=[(
"""            if len(self.template_parameters) == 0:
                code = "%s(*((%s *)self)->obj, %s);" % (self.setter, self.class_.pystruct, value_var)
            else:
                code = "%s<%s" % (self.setter, self.template_parameters[0])
                if len(self.template_parameters) > 1:
                    for x in self.template_parameters[1:]:
                        code += ", %s " % x
                code += ">(*((%s *)self)->obj, %s);" % (self.class_.pystruct, value_var)
""",
"""            if len(self.template_parameters) == 0:
                func = self.setter
            else:
                func = "%s<%s>" % (self.setter, ", ".join(sorted(set(self.template_parameters))))
            code = "%s(*((%s *)self)->obj, %s);" % (func, self.class_.pystruct, value_var)
""")],
 needs='a custom attribute whose setter has template parameters that are equal or not in alphabetical order',
 breaks='another instance of the setter template is called',
 demo=GEN+'''
mod = Module('m')
c = mod.add_class('K')
c.add_constructor([])
c.add_custom_instance_attribute('x', retval('int'), getter='get_x', setter='set_x', setter_template_parameters=['int', 'double'])
t = func(gen(mod), r'_wrap_PyK__set_x')
m = re.search(r'set_x<([^>]*)>', t)
assert m and [x.strip() for x in m.group(1).split(',')] == ['int', 'double'], t
'''),
]
