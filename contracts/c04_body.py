"""C04 - contract on how ForwardWrapperBase.generate_body builds the result, for every list of parameters: after the
conversions of the parameters and of the return value, from the table of values, once; None if the table is empty."""
from . import task, need
from .ghost import *
from .wrap import forward, evaluate
from .c03_body import strip
from pybindgen.typehandlers.base import ForwardWrapperBase


@task('C04', 'generate_body: the result is built from the table, after all conversions - any parameters')
def t_build(E):
    w, f, ret = forward(E, False)
    sink = w.sink()
    k, r = E.outcome(ForwardWrapperBase.generate_body, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    ex = evaluate(E, w, sink.ctext(), 'PyObject *' if ret is not None else 'void *')
    want = [['""'], ['"N"', 'B1'], ['"iN"', 'B2', 'B1']][w.build]
    done = 0
    for p in ex.paths:
        names = [e.name for e in p.calls()]
        bs = [e for e in p.calls() if e.name == 'Py_BuildValue']
        E.prove('built once at most, and only if there is a result', len(bs) <= (1 if ret is not None and w.build else 0), names)
        for e in bs:
            E.prove('the format and the values of the table, in order', [strip(x) for x in e.argtext] == want, e.argtext)
            i = names.index('Py_BuildValue')
            E.prove('after all conversions', not [x for x in names[i + 1:] if x.startswith(('CONVERT', 'RETVAL', 'HOOK', 'TARGET'))], names)
        if ret is None:
            E.prove('no result: no conversion of one', 'RETVAL_TO_PYTHON' not in names, names)
        elif p.end == 'return' and p.ret is not None and p.ret_text == 'py_retval':
            done += 1
            E.prove('everything is converted before the result is returned', 'CONVERT_AFTER_CALL' in names and names.count('RETVAL_TO_PYTHON') == 1 and
                    'TARGET' in names and names.index('TARGET') < names.index('CONVERT_AFTER_CALL') and names.index('TARGET') < names.index('RETVAL_TO_PYTHON'), names)
            if w.build:
                E.prove('what was built is returned', len(bs) == 1 and p.ret.id == bs[0].result.id, p.ret)
            else:
                inc = [e for e in p.calls() if e.name in ('Py_INCREF', 'Py_XINCREF')]
                E.prove('None is returned, with a reference', p.ret.text == 'Py_None' and len(inc) == 1 and inc[0].args[0].id == p.ret.id, (p.ret, inc))
    E.prove('a result is returned on some path', done > 0 or ret is None)
