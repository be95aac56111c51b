"""C04 - every handler of a container, alone, for any name: see c04_handlers; what iterating a container gives."""
from . import task
from .cboxes import *
from .c04_handlers import wrapper, override_parameter, override_result
from suites import c04
from pybindgen.typehandlers import codesink

for _n, _k, _f, _j in [('outputs of a container, wrappers', 'param', True, wrapper), ('results of a container, wrappers', 'return', True, wrapper),
                       ('parameters of a container, overrides', 'param', False, override_parameter), ('results of a container, overrides', 'return', False, override_result)]:
    def _g(E, k=_k, f=_f, j=_j):
        j(E, BoxCase(E, k, f))
    task('C04', '%s: one value each, of what was given' % _n)(_g)


class It(object):
    pass


def iterate(E, mapping):
    """each element once, in its place: (key, value) of a map, the bare element otherwise; the end is StopIteration"""
    w = wrap.World(E)
    E.class_models[codesink.MemoryCodeSink] = lambda eng: w.sink()
    for t in (base.BuildValueParameters, base.ParseTupleParameters):
        E.class_models.pop(t, None)
    ts = [t for t, h in hworld.handlers('return') if t != 'void' and not t.startswith('PyObject')]
    v = ts[E.choose(len(ts), 'value')]
    k = Box(E, w, mapping=mapping, value=v, key=['std::string', 'int8_t', 'int'][E.choose(3, 'key')] if mapping else 'int')
    f = E.call(container.IterNextWrapper, k.box)
    s = w.sink()
    kk, r = E.outcome(container.IterNextWrapper.generate, f, s)
    if kk != 'ok':
        E.prove('generated or refused', isinstance(r, (base.CodegenErrorBase, NotImplementedError, AssertionError)), repr(r))
        return
    name = w.names.text(f.c_function_name)
    text = k.unit(s.ctext())
    ex, u = ctext.run(text, name, known=KNOWN)
    bad = [str(p) for p in ex.problems if p.kind in ('format', 'undeclared', 'refs')]
    E.prove('the emitted code has no error of its own', not bad, '%r\n%s' % (bad[:3], text))
    done = stop = 0
    for p in ex.paths:
        if p.end != 'return':
            continue
        b = [e for e in p.calls() if e.name == 'Py_BuildValue']
        if p.ret.text.strip('() ') in ('NULL', '0'):
            stop += any(e.name == 'PyErr_SetNone' and [a.text for a in e.args] == ['PyExc_StopIteration'] for e in p.calls())
            E.prove('an error is set', bool(p.err), text)
            continue
        if not b:
            continue
        done += 1
        steps = [e for e in p.events if e.kind == 'step']
        E.prove('the iterator moves on, once', len(steps) == 1 and steps[0].op == '++' and steps[0].old.origin is not None and steps[0].old.origin[0] == 'deref'
                and (steps[0].old.origin[1].origin or [0, 0, 0])[2] == 'iterator', text)
        b = b[-1]
        E.prove('what is built is returned', getattr(b, 'result', None) is p.ret, text)
        got = [set().union(*[c04.fields(p, v, b.heap, set()) for v in vs]) & set(['first', 'second']) for (u_, vs) in b.items]
        E.prove('the key and the value, in this order' if mapping else 'the element', got == ([set(['first']), set(['second'])] if mapping else [set()]), '%r "%s"\n%s' % (got, b.fmt, text))
    E.prove('elements, and an end', done > 0 and stop > 0, '%r %r\n%s' % (done, stop, text))


for _m in (False, True):
    def _i(E, m=_m):
        iterate(E, m)
    task('C04', 'iterating a container%s: every builtin type' % (' of pairs' if _m else ''))(_i)
