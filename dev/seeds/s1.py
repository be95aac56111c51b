B = 'pybindgen/typehandlers/base.py'
SEEDS = [
dict(id='c01-position-reuse', property='C01', file=B, edits=[(
"        self._last_cleanup_position += 1\n        handle",
"        self._last_cleanup_position = len(self._cleanup_actions) + 1\n        handle")],
 needs='a cleanup is cancelled before a newer one, then another cleanup is added in the same block',
 breaks='the new cleanup overwrites a live one, which is then missing from every later exit',
 demo='''
from pybindgen.typehandlers.base import CodeBlock, DeclarationsScope
b = CodeBlock("return NULL;", DeclarationsScope())
h = b.add_cleanup_code("A;")
b.add_cleanup_code("B;")
h.cancel()
b.add_cleanup_code("C;")
b.write_error_return()
out = b.sink.flush().split()
assert out == ["C;", "B;", "return", "NULL;"], out
'''),
dict(id='c01-sort-as-text', property='C01', file=B, edits=[(
"        items.sort()\n",
"        items.sort(key=lambda item: repr(item))\n")],
 needs='ten or more cleanups live in one code block',
 breaks='cleanups run in the wrong order from the tenth on',
 demo='''
from pybindgen.typehandlers.base import CodeBlock, DeclarationsScope
b = CodeBlock("return NULL;", DeclarationsScope())
want = []
for i in range(12):
    b.add_cleanup_code("c%d;" % i)
    want.insert(0, "c%d;" % i)
assert b.get_cleanup_code() == want, b.get_cleanup_code()
'''),
dict(id='c02-scope-copy', property='C02', file=B, edits=[(
"            self.declared_variables = parent_scope.declared_variables\n",
"            self.declared_variables = dict(parent_scope.declared_variables)\n")],
 needs='a nested scope declares a name first and its parent scope declares the same name afterwards',
 breaks='two variables of one function get the same name',
 demo='''
from pybindgen.typehandlers.base import DeclarationsScope
p = DeclarationsScope()
c = DeclarationsScope(p)
a = c.declare_variable('int', 'value')
b = p.declare_variable('int', 'value')
assert a != b, (a, b)
'''),
dict(id='c03-mixed-keywords', property='C03', file=B, edits=[(
"            if len(keywords) != len(self._parse_tuple_items):\n                raise ValueError(\"mixing parameters with and without keywords\")\n            return keywords\n",
"            return keywords\n")],
 needs='an unnamed argument registered before the first named one',
 breaks='a keyword list shorter than the argument list is produced instead of an error',
 demo='''
from pybindgen.typehandlers.base import ParseTupleParameters
p = ParseTupleParameters()
p.add_parameter('i', ['&a'])
p.add_parameter('i', ['&b'], 'b')
try:
    k = p.get_keywords()
except ValueError:
    pass
else:
    assert 0, k
'''),
dict(id='c05-deep-const', property='C05', file='pybindgen/typehandlers/ctypeparser/__init__.py', edits=[(
"                elif ptr_ref_level == 1:\n",
"                elif ptr_ref_level >= 1:\n")],
 needs='a pointer to a pointer (or a reference to a pointer) to a const type',
 breaks='the pointed-to type is reported const although only what it points to is',
 demo='''
from pybindgen.typehandlers.ctypeparser import TypeTraits
t = TypeTraits("const char **")
assert not t.target_is_const
'''),
dict(id='c05-function-args', property='C05', file='pybindgen/typehandlers/ctypeparser/__init__.py', edits=[(
"            if token.name in [',', '>', ')']:\n                ctype.reorder_modifiers()\n",
"            if token.name in [',', '>', ')']:\n                if token.name != ')':\n                    ctype.reorder_modifiers()\n")],
 needs='a const in the last parameter of a function pointer type',
 breaks='two spellings of one function pointer type get different normal forms',
 demo='''
from pybindgen.typehandlers.ctypeparser import normalize_type_string as n
assert n("void (*) (const Foo*)") == n("void (*)(Foo const *)"), n("void (*) (const Foo*)")
'''),
dict(id='c07-unindent-four', property='C07', file='pybindgen/typehandlers/codesink.py', edits=[(
"        else:\n            self.indent_level = self.indent_stack.pop()\n",
"        else:\n            self.indent_stack.pop()\n            self.indent_level -= 4\n")],
 needs='an indentation step other than four columns',
 breaks='lines after unindent() do not return to the previous level',
 demo='''
from pybindgen.typehandlers.codesink import MemoryCodeSink
s = MemoryCodeSink()
s.indent(8)
s.writeln("a")
s.unindent()
s.writeln("b")
assert s.lines == ["        a", "b"], s.lines
'''),
dict(id='c07-splitlines', property='C07', file='pybindgen/typehandlers/codesink.py', edits=[(
"        for line in code.split('\\n'):\n",
"        for line in code.splitlines() or ['']:\n")],
 needs='a chunk of code that ends with a newline, or holds another line separator such as a form feed',
 breaks='trailing empty lines are dropped and form feeds split lines',
 demo='''
from pybindgen.typehandlers.codesink import MemoryCodeSink
s = MemoryCodeSink()
s.writeln("a\\n")
s.writeln("b")
assert s.lines == ["a", "", "b"], s.lines
'''),
]
