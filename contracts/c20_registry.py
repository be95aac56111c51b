"""C20 - contracts on the wrapper registries (pybindgen/wrapper_registry.py), for every class name, wrapper and object:

  register(w, o):    the record of o's address is w afterwards, nothing else changes
  lookup(w, o):      recorded: w is the recorded wrapper, with one new reference; not recorded: w is NULL; no change
  unregister(w, o):  the record of o's address is removed if it is w, nothing else changes
  the map is the same one in the module that publishes it and in a module that imports it
  the null registry emits nothing and refuses to look up."""
import re
from . import task, need
from .ghost import *
from . import ctext
from pybindgen import wrapper_registry
from pybindgen.wrapper_registry import StdMapWrapperRegistry, NullWrapperRegistry, WrapperRegistry
from pybindgen.typehandlers.base import NotSupportedError

PRE = 'struct BASE { PyObject_HEAD int *obj; };\n'


class GhostModule(object):
    _pyvc_model = True

    def __init__(self, names):
        self.after_init = ctext.TextBlock(names)
        self.includes = []

    def add_include(self, x):
        self.includes.append(x)


def setup(E, imported):
    """(names, registry, emitted declarations, module)"""
    names = ctext.Names(E)
    base = names.new('base', 'BASE')
    r = E.call(StdMapWrapperRegistry, base)
    mod = GhostModule(names)
    sink = ctext.TextBlock(names)
    E.call(StdMapWrapperRegistry.generate_forward_declarations, r, sink, mod, E.val('other module') if imported else None)
    return names, r, sink, mod


def unit(sink, body, extra=''):
    """text of a function; object-like macros of the declarations are expanded"""
    lines, macros = [], []
    for l in sink.lines:
        for x in l.split('\n'):
            m = re.match(r'\s*#\s*define\s+(\w+)\s+(.*)$', x)
            if m:
                macros.append((m.group(1), m.group(2)))
            else:
                lines.append(x)
    for (a, b) in macros:
        body = re.sub(r'\b%s\b' % re.escape(a), lambda m: b, body)
    return '%s%s\n%s\nvoid F(PyBASE *W, int *OBJ)\n{\n%s\n}\n' % ('struct PyBASE { PyObject_HEAD int *obj; };\n', '\n'.join(lines), extra, body)


def paths(E, imported, write):
    from suites import c20
    names, r, sink, mod = setup(E, imported)
    b = ctext.TextBlock(names, error='return;')
    write(r, b, names)
    ex, u = ctext.run(unit(sink, b.body()), known=['PyBASE', 'USE'])
    E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
    out = []
    for p in ex.paths:
        W, O = p.params['W'], p.params['OBJ']
        maps = set()
        for e in p.events:
            if e.kind == 'call' and getattr(e, 'base', None) is not None:
                maps.add(e.base.text)
            if e.kind == 'assign' and e.lv[0] == 'index':
                maps.add(e.lv[1].text)
        m = c20.Monitor(p, maps, {})
        out.append((p, m, W, O))
        E.prove('one map is used, the one declared', set(re.sub(r'[()\s]', '', x) for x in maps) == set(['*_BASE_wrapper_registry' if imported else 'BASE_wrapper_registry']), maps)
        E.prove('paths end', p.end == 'fall', p.end)
    return out, names, r


IMPORTED = (False, True)


@task('C20', 'StdMapWrapperRegistry.write_register_new_wrapper: the record of the address is the wrapper, nothing else changes')
def t_register(E):
    from suites import own
    imp = IMPORTED[E.choose(2, 'imported')]
    out, names, r = paths(E, imp, lambda r, b, n: E.call(StdMapWrapperRegistry.write_register_new_wrapper, r, b, n.new('wrapper', 'W'), n.new('object', 'OBJ')))
    E.prove('some path', len(out) > 0)
    for p, m, W, O in out:
        rec = [o for o in m.ops if o[1] != 'find']
        E.prove('exactly the record of the object is written', [(o[1], o[3]) for o in rec] == [('record', own.key(O))], m.ops)
        E.prove('it is the wrapper', len(rec) == 1 and rec[0][1] == 'record' and rec[0][4].id == W.id, m.ops)
        E.prove('no reference changes', not [e for e in p.events if e.kind == 'call' and e.name.startswith('Py_')])


@task('C20', 'StdMapWrapperRegistry.write_lookup_wrapper: the recorded wrapper with one new reference, or NULL')
def t_lookup(E):
    from suites import own
    imp = IMPORTED[E.choose(2, 'imported')]
    out, names, r = paths(E, imp, lambda r, b, n: (E.call(StdMapWrapperRegistry.write_lookup_wrapper, r, b, n.new('type', 'PyBASE'), n.new('wrapper', 'W'), n.new('object', 'OBJ')),
                                                   b.write_code('USE(W);')))
    hits = set()
    for p, m, W, O in out:
        E.prove('the record of the object is looked up, nothing is changed', [(o[1], o[3]) for o in m.ops] == [('find', own.key(O))], m.ops)
        if len(m.ops) != 1:
            continue
        h = m.hit(m.ops[0][4])
        hits.add(h)
        use = [e for e in p.events if e.kind == 'call' and e.name == 'USE']
        w = use[0].args[0] if use else None
        inc = [e for e in p.events if e.kind == 'call' and e.name in ('Py_INCREF', 'Py_XINCREF')]
        dec = [e for e in p.events if e.kind == 'call' and e.name in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR')]
        if h is True:
            E.prove('found: the wrapper is the recorded one', w is not None and m.found(m.ops[0][4])(w), w)
            E.prove('found: one new reference', len(inc) == 1 and not dec and w is not None and inc[0].args[0].id == w.id, (inc, dec))
        elif h is False:
            E.prove('not found: NULL, no reference', w is not None and own.null(w) and not [e for e in inc + dec if e.name in ('Py_INCREF', 'Py_DECREF')], w)
        else:
            E.prove('the outcome of the search is tested', False, p.conds)
    E.prove('both outcomes are possible', hits == set([True, False]), hits)


@task('C20', 'StdMapWrapperRegistry.write_unregister_wrapper: the record is removed exactly if it is this wrapper')
def t_unregister(E):
    from suites import own
    imp = IMPORTED[E.choose(2, 'imported')]
    out, names, r = paths(E, imp, lambda r, b, n: E.call(StdMapWrapperRegistry.write_unregister_wrapper, r, b, n.new('wrapper', 'W'), n.new('object', 'OBJ')))
    erased = set()
    for p, m, W, O in out:
        k = own.key(O)
        E.prove('nothing is recorded', not [o for o in m.ops if o[1] in ('record', 'other')], m.ops)
        E.prove('no reference changes', not [e for e in p.events if e.kind == 'call' and e.name.startswith('Py_')])
        E.prove('afterwards the wrapper is not recorded for the object', m.removed(k, W), m.ops)
        for o in m.ops:
            if o[1] == 'erase':
                E.prove('only a record that was found to be this wrapper is removed', m.hit(o[3]) is True and m.second(o[3], W) is True, p.conds)
        erased.add(any(o[1] == 'erase' for o in m.ops))
    E.prove('both outcomes are possible', erased == set([True, False]), erased)


@task('C20', 'the registry a module publishes is the one another module imports')
def t_import(E):
    names, r, sink, mod = setup(E, True)
    pub = ctext.TextBlock(names)
    E.call(StdMapWrapperRegistry.generate, r, pub, mod)
    ex, u = ctext.run('%s\nvoid F(PyObject *m)\n{\n%s\n}\n' % ('\n'.join(pub.lines), mod.after_init.body()))
    E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
    E.prove('one registry is defined', [v.name for v in u.vars if not v.extern] == ['BASE_wrapper_registry'], [v.name for v in u.vars])
    name = None
    for p in ex.paths:
        es = [e for e in p.events if e.kind == 'call' and e.name == 'PyModule_AddObject']
        E.prove('published once in the module', len(es) == 1 and es[0].args[0].id == p.params['m'].id, es)
        if len(es) == 1:
            name = es[0].argtext[1]
            E.prove('what is published is the address of the registry', 'PyCObject_FromVoidPtr' in es[0].argtext[2] and '&BASE_wrapper_registry' in es[0].argtext[2].replace(' ', ''), es[0].argtext)
    imp = ctext.TextBlock(names)
    code = ctext.TextBlock(names, error='return;')
    E.call(StdMapWrapperRegistry.generate_import, r, imp, code, names.new('module', 'M'))
    ex, u = ctext.run('%s\nvoid F(PyObject *M)\n{\n%s\n}\n' % ('\n'.join(imp.lines), code.body()))
    E.prove('the emitted import has no error of its own', not ex.problems, ex.problems[:3])
    E.prove('the pointer the uses are redirected to is defined', [v.name for v in u.vars] == ['_BASE_wrapper_registry'], [v.name for v in u.vars])
    good = 0
    for p in ex.paths:
        es = [e for e in p.events if e.kind == 'call' and e.name == 'PyObject_GetAttrString']
        E.prove('looked up once in the imported module, under the published name', len(es) == 1 and es[0].args[0].id == p.params['M'].id and es[0].argtext[1] == name, (es, name))
        conv = [e for e in p.events if e.kind == 'call' and e.name == 'PyCObject_AsVoidPtr']
        if conv:
            good += 1
            E.prove('the pointer is the published address', len(es) == 1 and conv[0].args[0].id == es[0].result.id, conv)
            E.prove('no reference is kept', [e.args[0].id for e in p.events if e.kind == 'call' and e.name in ('Py_DECREF', 'Py_XDECREF')] == [es[0].result.id] if len(es) == 1 else False)
        E.prove('what could not be found is not released', bool(conv) or not [e for e in p.events if e.kind == 'call' and e.name == 'Py_DECREF'])
    E.prove('the published registry is taken on some path', good > 0)


@task('C20', 'NullWrapperRegistry emits nothing and refuses to look up')
def t_null(E):
    names = ctext.Names(E)
    r = E.call(NullWrapperRegistry, names.new('base', 'BASE'))
    b, s = ctext.TextBlock(names), ctext.TextBlock(names)
    mod = GhostModule(names)
    w, o = names.new('wrapper', 'W'), names.new('object', 'OBJ')
    for n, a in (('generate_forward_declarations', (s, mod, None)), ('generate', (s, mod)), ('generate_import', (s, b, o)),
                 ('write_register_new_wrapper', (b, w, o)), ('write_unregister_wrapper', (b, w, o))):
        k, v = E.outcome(getattr(NullWrapperRegistry, n), r, *a)
        E.prove('%s returns' % n, k == 'ok', v)
    k, v = E.outcome(NullWrapperRegistry.write_lookup_wrapper, r, b, names.new('type', 'T'), w, o)
    E.prove('lookup refuses', k == 'exc' and isinstance(v, NotSupportedError), v)
    E.prove('nothing is emitted', not b.lines and not s.lines and not b.decls and not mod.after_init.lines and not mod.includes, (b.lines, s.lines))
