"""C19 - contracts on the converters between Python and C values (converter_functions.py, the converter of a container), for
any names and any type handler: the destination is written on the paths that report success and on no other, with the value
given; a failure leaves an error set; the handler, which other wrappers share, is left as it was."""
from . import task
from .c19_access import Handler, Count, Emitted, world, handler
from .ghost import *
from . import ctext, wrap
from .cboxes import Box, BoxReturn, ITEMC, KEYC, KNOWN as BKNOWN
from pybindgen.converter_functions import PythonToCConverter, CToPythonConverter
from pybindgen.container import Container
from suites import c19

KNOWN = ['TO_PYTHON', 'FROM_PYTHON', 'CHECK', 'CT']
NAME = '_wrap_convert_py2c__CT'


def source(v):
    """where an element comes from: an item of the list given, or half of one"""
    o = v.origin
    if not o or o[0] != 'api' or len(o) < 4 or len(o[3]) != 2:
        return v.text
    n = o[2].replace('_', '').lower()
    if n == 'pylistgetitem':
        return 'item'
    return ('half', o[3][1].lit, source(o[3][0])) if n == 'pytuplegetitem' else v.text


def judge(E, text, name, known, loops=False):
    ex, u = ctext.run(text, name, known=known)
    E.prove('the emitted code has no error of its own', not ex.problems, [str(x) for x in ex.problems[:3]])
    c = Count()
    g = Emitted(u, name, ex)
    g.unit = type('U', (), {'funcs': [u.func(name)]})
    c19.converters(c, g, [])
    E.prove('the destination is written exactly on success', not c.bad, '%r\n%s' % (c.bad[:2], text))
    ends = set()
    for p in ex.paths:
        if p.end != 'return' or p.ret is None:
            continue
        rv = p.ret.text.strip('() ')
        ends.add(rv)
        E.prove('a failure leaves an error, success none', rv in ('0', '1') and (bool(p.err) == (rv == '0') or loops and rv == '1'), '%s %r %r\n%s' % (rv, p.err, p.conds, text))
    E.prove('success and failure', ends == set(['0', '1']), ends)
    return ex


def t_py2c(E):
    w = world(E)
    h = handler(E, w)
    h.type_traits = wrap.GhostTraits(h.ctype)
    saved = h.value, h.REQUIRES_ASSIGNMENT_CONSTRUCTOR
    f = E.call(PythonToCConverter, h, NAME)
    s = w.sink()
    k, r = E.outcome(PythonToCConverter.generate, f, s, NAME)
    E.prove('generated', k == 'ok', r)
    E.prove('the handler is left as it was', (h.value, h.REQUIRES_ASSIGNMENT_CONSTRUCTOR) == saved, repr((h.value, saved)))
    if k != 'ok':
        return
    text = s.ctext() + '\n'
    ex = judge(E, text, NAME, KNOWN)
    for p in ex.paths:
        b = [e for e in p.calls() if e.name == 'Py_BuildValue']
        E.prove('the value given is converted', len(b) == 1 and [v.text for u, vs in b[0].items for v in vs] == ['value'], text)
        if p.end == 'return' and p.ret is not None and p.ret.text.strip('() ') == '1':
            v = p.heap.get(('*', p.params['address'].id))
            E.prove('into the destination', v is not None and c19.python_value(p, v, 'value') is not False, '%r' % v)
    proto = w.names.text(E.call(PythonToCConverter.get_prototype, f))
    E.prove('the prototype is that of the function', proto.replace(' ', '') == text.split('{')[0].strip().replace(' ', '').replace('\n', ''), '%r %r' % (proto, text))


task('C19', 'PythonToCConverter: the destination is written exactly on success, with the value given - any handler')(t_py2c)


@task('C19', 'CToPythonConverter: what is returned is made of the value given, nothing is stored - any handler')
def t_c2py(E):
    w = world(E)
    h = handler(E, w)
    h.type_traits = wrap.GhostTraits(h.ctype)
    saved = h.value
    f = E.call(CToPythonConverter, h, '_wrap_convert_c2py__CT')
    s = w.sink()
    k, r = E.outcome(CToPythonConverter.generate, f, s)
    E.prove('generated', k == 'ok', r)
    E.prove('the handler is left as it was', h.value == saved, repr((h.value, saved)))
    if k != 'ok':
        return
    text = s.ctext() + '\n'
    ex, u = ctext.run(text, '_wrap_convert_c2py__CT', known=KNOWN)
    E.prove('the emitted code has no error of its own', not ex.problems, [str(x) for x in ex.problems[:3]])
    done = 0
    for p in ex.paths:
        if p.end != 'return':
            continue
        conv = [e for e in p.calls() if e.name == 'TO_PYTHON']
        E.prove('the value is converted, once', len(conv) == 1 and [a.text.strip('()') for a in conv[0].args] == ['*cvalue'], text)
        E.prove('nothing is stored', not [e for e in p.events if e.kind == 'assign' and e.lv[0] in ('deref', 'field')], text)
        b = [e for e in p.calls() if e.name == 'Py_BuildValue']
        if p.ret.text.strip('() ') in ('0', 'NULL'):
            continue
        done += 1
        E.prove('and returned', len(b) == 1 and getattr(b[0], 'result', None) is p.ret, text)
    E.prove('a value is returned', done > 0, text)


@task('C19', 'the converter of a container: from a container or a list, written exactly on success')
def t_box(E):
    w = wrap.World(E)
    k = Box(E, w, mapping=E.choose(2, 'mapping') == 1)
    k.box.ThisContainerReturn = BoxReturn
    k.value.ctype = w.names.new('item', 'IT1')
    if k.key is not None:
        k.key.ctype = w.names.new('key', 'KT1')
    s = w.sink()
    kk, r = E.outcome(Container._generate_container_constructor, k.box, s)
    E.prove('generated', kk == 'ok', r)
    if kk != 'ok':
        return
    text = k.unit(s.ctext())
    ex = judge(E, text, '_wrap_convert_py2c__CN1', BKNOWN, loops=True)
    copied = filled = added = 0
    ADD = w.names.text(k.box.container_traits.add_value_method)
    locals_, given = set(), set()
    for p in ex.paths:
        me, to = p.params['arg'], p.params['container']
        conv = [e for e in p.calls() if e.name in (ITEMC, KEYC)]
        failed = [e for e in conv if p.facts.get(e.result.id) is False]
        adds = [e for e in p.calls() if e.name == ADD]
        if p.end == 'cut':
            E.prove('an iteration leaves the destination alone', not c19.writes(p, to), text)
            E.prove('an element that is converted is added', not failed and len(adds) == 1 and [e.name for e in conv] == ([KEYC, ITEMC] if k.key is not None else [ITEMC])
                    and adds[0].seq > conv[-1].seq, '%r\n%s' % (p.conds, text))
            added += 1
            locals_ |= set(e.recv for e in adds)
            E.prove('each from its place', [source(e.args[0]) for e in conv] == ([('half', 0, 'item'), ('half', 1, 'item')] if k.key is not None else ['item']),
                    '%r\n%s' % ([source(e.args[0]) for e in conv], text))
        if p.end != 'return':
            continue
        ok = p.ret.text.strip('() ') == '1'
        E.prove('an element that cannot be converted is an error', not (failed and ok), '%r %r\n%s' % (p.conds, p.facts, text))
        if not ok:
            continue
        for e in c19.writes(p, to):
            if e.kind != 'assign':
                E.prove('the destination is assigned', False, text)
                continue
            src = e.value.origin
            if src and src[0] == 'deref' and (src[1].origin or [0, 0, 0])[2] == 'obj' and src[1].origin[1].id == me.id:
                copied += 1
            else:
                given.add(e.rhs.strip('() '))
    E.prove('what is given is copied, or its elements are', copied > 0 and added > 0 and given == locals_ and len(given) == 1, '%r %r %r\n%s' % (copied, given, locals_, text))
