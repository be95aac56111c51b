"""C17 - contracts on the rows of the method tables and on the signatures of the functions they name (pybindgen/function.py,
cppmethod.py, overloading.py, cppclass.py): for arbitrary names, docstrings and flags that generate_body decided for."""
import re
from . import task, need
from .ghost import *
from . import ctext, wrap
from pybindgen import cppclass, utils
from pybindgen.cppclass import CppClass
from pybindgen.function import Function
from pybindgen.cppmethod import CppMethod, CppVirtualMethodParentCaller
from pybindgen.overloading import OverloadedWrapper
from pybindgen.typehandlers import codesink
from pybindgen.typehandlers.base import ForwardWrapperBase, CodeGenerationError

FLAGS = [['METH_VARARGS', 'METH_KEYWORDS'], ['METH_KEYWORDS', 'METH_VARARGS'], ['METH_VARARGS'], ['METH_NOARGS']]
ROW = re.compile(r'^\s*\{\s*\(char\s*\*\)\s*"([^"]*)"\s*,\s*\(\s*PyCFunction\s*\)\s*(\w+)\s*,\s*([\w|\s]+?)\s*,\s*(NULL|"[^"]*")\s*\}\s*,\s*$')
KINDS = [('Function', Function), ('CppMethod', CppMethod), ('CppVirtualMethodParentCaller', CppVirtualMethodParentCaller)]


class GhostParam(object):
    _pyvc_model = True

    def __init__(self, name, ctype):
        self.name, self.ctype = name, ctype


class Cls(object):
    _pyvc_model = True

    def __init__(self, n):
        self.pystruct, self.name, self.full_name = n, n, n


class Helper(object):
    _pyvc_model = True
    name = 'HELPER'

    def __init__(self, c):
        self.class_ = c


def make(E, cls):
    """a wrapper for which generate_body was not run yet; what it will find out are the flags"""
    names = ctext.Names(E)
    f = cls.__new__(cls)
    f.meth_flags = []
    f.flags = FLAGS[E.choose(len(FLAGS), 'flags')]
    f.throw = []
    f.deprecated = False
    f.wrapper_base_name = 'WRAPPER'
    f.wrapper_actual_name = f.wrapper_return = f.wrapper_args = None
    f.parameters = [GhostParam('P%d' % i, 'T%d' % i) for i in range(E.choose(3, 'parameters'))]
    f.docstring = [None, names.new('docstring', 'DOC')][E.choose(2, 'docstring')]
    f.static, f.struct = False, None
    if cls is Function:
        # a function used as a method always parses (_setup_function_as_method)
        f.struct = f.self_parameter_pystruct = [None, 'PyCLS'][E.choose(2, 'self') if 'METH_KEYWORDS' in f.flags else 0]
    elif cls is CppMethod:
        f.is_static = f.static = E.choose(2, 'static') == 1
        f._helper_class = None
        f._class = Cls('PyCLS')
        f.struct = 'PyCLS'
        if E.choose(2, 'helper'):
            f._helper_class, f.struct = Helper(Cls('PySUB')), 'PySUB'
    else:
        f.is_static = False
        c = Cls('PyCLS')
        f._helper_class = Helper(c)

        class Method(object):
            _pyvc_model = True
            class_ = c
        f.method = Method()
        f.struct = 'PyCLS'
        f.mangled_name = 'M'
    f.resets = 0

    def body(eng, self, sink, *a, **k):
        self.meth_flags = list(self.flags)
        sink.writeln('return NULL;')

    def reset(eng, self):
        self.meth_flags = []
        self.resets += 1
    E.contracts[ForwardWrapperBase.generate_body] = body
    E.contracts[ForwardWrapperBase.reset_code_generation_state] = reset
    return names, f


def wanted(f):
    return set(f.flags) | (set(['METH_STATIC']) if f.static else set())


def flags_of(E, f, name):
    k, r = E.outcome(getattr(type(f), name), f)
    E.prove('flags are given', k == 'ok' and isinstance(r, list), r)
    return r if k == 'ok' else []


def rows(E, cls):
    names, f = make(E, cls)
    # flags asked for before anything was generated: generated into nowhere, and forgotten
    r = flags_of(E, f, 'get_py_method_def_flags')
    E.prove('the flags the body decides for', set(r) == wanted(f) and len(r) == len(set(r)), r)
    E.prove('asking leaves nothing behind', f.meth_flags == [] and f.resets >= 1, (f.resets, f.meth_flags))
    actual = ['WRAPPER', 'OTHER'][E.choose(2, 'name')] if cls is not CppVirtualMethodParentCaller else 'WRAPPER'
    extra = ['PyObject **return_exception'] if 'METH_KEYWORDS' in f.flags and E.choose(2, 'extra') else []
    sink = codesink.MemoryCodeSink()
    k, r = E.outcome(cls.generate, f, sink, actual if actual != 'WRAPPER' else None, tuple(extra))
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    text = '\n'.join(names.text(x) for x in sink.lines)
    m = re.match(r'^\s*(static\s+)?PyObject\s*\*\s*(\w+)\s*\(([^{]*)\)\s*\{.*\}\s*$', text, re.S)
    E.prove('a function returning an object', m is not None and m.group(2) == actual, text)
    if m is None:
        return
    ps = [re.sub(r'\s+', ' ', x).strip() for x in re.sub(r'PYBINDGEN_UNUSED\((\w+)\)', r'UNUSED_\1', m.group(3)).split(',')]
    if cls is Function and 'METH_VARARGS' not in f.flags:
        E.prove('nothing it does not take is named', not [x for x in ps if x.endswith(('*self', '*args', '*kwargs'))] and len(ps) in (1, 2, 3), ps)
        ps = (ps + ['PyObject *UNUSED'] * 3)[:3]       # what is not passed is not used
    E.prove('it takes self, arguments and keywords, and what was asked for', len(ps) == 3 + len(extra) and
            [re.sub(r'\s', '', x) for x in ps[3:]] == [re.sub(r'\s', '', x) for x in extra], ps)
    if len(ps) < 3:
        return
    norm = [re.match(r'^(.*?)\s*\*\s*(\w+)$', x) for x in ps[:3]]
    E.prove('each of them a pointer', all(norm), ps)
    if not all(norm):
        return
    (t0, n0), (t1, n1), (t2, n2) = [x.groups() for x in norm]
    E.prove('arguments and keywords are objects', t1 == t2 == 'PyObject', ps)
    E.prove('arguments are named if they are parsed', (n1 == 'args') == ('METH_VARARGS' in f.flags), ps)
    E.prove('keywords are named if they are parsed', (n2 == 'kwargs') == ('METH_KEYWORDS' in f.flags), ps)
    if f.struct is not None and not f.static:
        E.prove('self is an instance of the class', (t0, n0) == (f.struct, 'self'), ps)
    else:
        E.prove('there is no self', n0 != 'self', ps)
    # the row
    given = f.docstring
    pyname = names.new('python_name', 'PYNAME')
    k, r = E.outcome(cls.get_py_method_def, f, pyname)
    E.prove('a row is made', k == 'ok', r)
    if k != 'ok':
        return
    g = ROW.match(names.text(r))
    E.prove('one row of name, function, flags and docstring', g is not None, names.text(r))
    if g is None:
        return
    E.prove('under the Python name', g.group(1) == 'PYNAME', g.groups())
    E.prove('the function that was generated', g.group(2) == actual, g.groups())
    fl = [x.strip() for x in g.group(3).split('|')]
    E.prove('with the flags of what it parses', set(fl) == wanted(f) and len(fl) == len(set(fl)), fl)
    if given is not None:
        E.prove('with its docstring', g.group(4) == '"DOC"', g.groups())
    E.prove('the flags are still those of the body', set(f.meth_flags) == set(f.flags), f.meth_flags)
    f2 = flags_of(E, f, 'get_py_method_def_flags')
    E.prove('asking again gives the same', set(f2) == wanted(f), f2)


for _n, _c in KINDS:
    def _f(E, c=_c):
        rows(E, c)
    task('C17', '%s: signature, flags and row of the table agree' % _n)(_f)


class Overload(object):
    """contract of an overload set: generated or skipped; its row"""
    _pyvc_model = True

    def __init__(self, E, i, skip):
        self._pyvc_E, self.i, self.skip = E, i, skip
        self.generated = 0
        self.wrappers = []

    def generate(self, sink, *a):
        self.generated += 1
        sink.writeln('FUNCTION%d' % self.i)

    def get_py_method_def(self, name):
        return '{ROW%d %s after%d}' % (self.i, name, self.generated)


@task('C17', 'the method table: a row for each overload that was generated, parent callers, inherited methods, a copy, the sentinel')
def t_table(E):
    c = CppClass('CLS')
    seq = sorted(c.valid_sequence_methods)
    k = E.choose(3, 'methods')
    pool = ['m%d', '__call__', seq[0], seq[-1]]
    c.methods, ovs, special = {}, [], []
    for i in range(k):
        n = pool[E.choose(4 if i == 0 else 2, 'name')] if i < 2 else 'm%d'
        n = n % i if '%' in n else n
        if n in c.methods:
            return
        o = Overload(E, i, E.choose(2, 'skip') == 1)
        c.methods[n] = o
        ovs.append((n, o))
        if n in ['__call__'] + seq:
            special.append(n)
    c._pystruct = 'PyCLS'
    c._have_pure_virtual_methods = E.choose(2, 'pure virtual') == 1
    c.cannot_be_constructed = ['', 'no'][E.choose(2, 'blocked')]
    c.has_copy_constructor = E.choose(2, 'copy') == 1
    c.bases = [None] * E.choose(3, 'bases')
    copy = E.choose(2, 'copy fails') == 0
    c.slots = {}
    E.contracts[CppClass._generate_MI_parent_methods] = lambda eng, self, sink: ['{INHERITED0}', '{INHERITED1}']

    def make_copy(eng, self, sink):
        if not copy:
            raise CodeGenerationError('no')
        return 'COPY'

    def guarded(eng, callback, args, kwargs, wrapper, exceptions_to_handle=None):
        """contract of call_with_error_handling (C08), the handler goes on without"""
        if isinstance(wrapper, Overload):
            if wrapper.skip:
                raise utils.SkipWrapper
        try:
            return eng.interp.call(callback, list(args), dict(kwargs))
        except CodeGenerationError:
            raise utils.SkipWrapper
    E.contracts[CppClass._generate_copy_method] = make_copy
    E.contracts[utils.call_with_error_handling] = guarded
    sink = codesink.MemoryCodeSink()
    k, r = E.outcome(CppClass._generate_methods, c, sink, ['{PARENT0}', '{PARENT1}'])
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    text = '\n'.join(sink.lines)
    m = re.search(r'static\s+PyMethodDef\s+(\w+)\s*\[\]\s*=\s*\{(.*)\}\s*;\s*$', text, re.S)
    E.prove('one table, last', m is not None and text.count('PyMethodDef') == 1, text)
    if m is None:
        return
    got = [x.strip() for x in m.group(2).split('\n') if x.strip()]
    want = ['{ROW%d %s after1}' % (o.i, n) for n, o in ovs if not o.skip and n not in special] + ['{PARENT0}', '{PARENT1}']
    want += ['{INHERITED0}', '{INHERITED1}'] if len(c.bases) > 1 else []
    has_copy = c.has_copy_constructor and not c.cannot_be_constructed and not c._have_pure_virtual_methods and copy
    E.prove('closed by the sentinel', got and re.sub(r'\s', '', got[-1]) == '{NULL,NULL,0,NULL}', got)
    rest = got[:-1]
    if has_copy:
        gs = [x for x in rest if '__copy__' in x]
        g = ROW.match(gs[0]) if len(gs) == 1 else None
        E.prove('a copy method if the class can be copied', g is not None and g.groups()[:3] == ('__copy__', 'COPY', 'METH_NOARGS'), got)
        rest = [x for x in rest if x not in gs]
    E.prove('one row for everything generated and nothing else', sorted(rest) == sorted(want), got)
    for n, o in ovs:
        E.prove('each overload is generated once', o.generated == (0 if o.skip else 1), (n, o.generated))
    E.prove('the type uses the table', c.slots.get('tp_methods') == m.group(1), c.slots)
