import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 's2.py')).read().split('SEEDS = [')[0])
CM = 'pybindgen/cppmethod.py'
C = 'pybindgen/cppclass.py'
RUN = GEN + '''
def init_of(c, text):
    # the functions named tp_init of the class, as text
    return [b for b in re.split(r'\\n(?=static|int|PyObject)', text) if re.search(r'%s__tp_init' % c.pystruct, b.split('{')[0])]
'''
SEEDS = [
dict(id='c15-const-base-only', property='C15', file=CM, edits=[(
"        if bool(self.is_const) != bool(other.is_const):\n",
"        if other.is_const and not self.is_const:\n")],
 needs='a pure virtual method of a base, and in a derived class a virtual const method of the same name and parameters',
 breaks='the const method counts as implementing the other one: the derived class, abstract in C++, is constructed',
 demo=RUN+'''
mod = Module('m')
a = mod.add_class('A', allow_subclassing=True); a.add_constructor([])
a.add_method('f', None, [], is_pure_virtual=True, is_virtual=True)
b = mod.add_class('B', parent=a); b.add_constructor([])
b.add_method('f', None, [], is_virtual=True, is_const=True)
t = gen(mod)
assert 'new B(' not in t, 'an abstract class is constructed'
'''),
dict(id='c15-private-only', property='C15', file=CM, edits=[(
"                if self.visibility not in ['public']:\n",
"                if self.visibility == 'private':\n")],
 needs='a class with subclassing allowed and a protected constructor, that is constructible otherwise',
 breaks='calling the class itself constructs it through its protected constructor',
 demo=RUN+'''
mod = Module('m')
a = mod.add_class('A', allow_subclassing=True); a.add_constructor([], visibility='protected')
a.add_method('f', None, [], is_virtual=True)
t = gen(mod)
assert 'new A(' not in t, 'constructed through a protected constructor'
assert 'cannot be constructed' in t
'''),
dict(id='c15-first-path', property='C15', file=C, edits=[(
"            for base in cls.bases:\n                if base not in visited:\n                    to_visit.append(base)\n",
"            for base in cls.bases:\n                if base in visited:\n                    break\n                to_visit.append(base)\n")],
 needs='a class with two bases of which the first was already visited by another path (a base repeated along two paths), the second with a pure virtual method',
 breaks='the bases after the repeated one are forgotten: a class that inherits a pure virtual method there is constructed',
 demo=RUN+'''
mod = Module('m')
a = mod.add_class('A'); a.add_constructor([])
p = mod.add_class('P'); p.add_constructor([])
p.add_method('f', None, [], is_pure_virtual=True, is_virtual=True)
l = mod.add_class('L', parent=[a]); l.add_constructor([])
b = mod.add_class('B', parent=[a, p]); b.add_constructor([])
d = mod.add_class('D', parent=[a, b]); d.add_constructor([])
assert d.have_pure_virtual_methods, 'an inherited pure virtual method is forgotten'
'''),
]
