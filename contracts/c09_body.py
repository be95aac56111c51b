"""C09 - contract on the error returns of ForwardWrapperBase.generate_body, for every list of parameters: what goes wrong
before the arguments are accepted returns the parse error (the dispatcher then tries the next overload), what goes wrong
afterwards - a warning turned into an error, the conversion of results - the error of the call (the dispatcher stops)."""
from . import task, need
from .ghost import *
from .wrap import forward, evaluate
from pybindgen.typehandlers.base import ForwardWrapperBase


@task('C09', 'generate_body: refusals return the parse error, later errors that of the call - any parameters')
def t_errors(E):
    w, f, ret = forward(E, False)
    sink = w.sink()
    k, r = E.outcome(ForwardWrapperBase.generate_body, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    ex = evaluate(E, w, sink.ctext(), 'PyObject *' if ret is not None else 'void *')
    kinds = set()
    for p in ex.paths:
        if p.end != 'return' or p.ret_text not in ('PARSE_ERROR', 'NULL'):
            continue
        names = [e.name for e in p.calls()]
        accepted = 'PyErr_Warn' in names or 'TARGET' in names
        last = [n for n in names if not n.startswith(('Py_', 'PyEval'))][-1:]
        kinds.add((last[0] if last else None, p.ret_text))
        if not accepted:
            E.prove('a refused argument returns the parse error', p.ret_text == 'PARSE_ERROR', names)
        elif last[0] in ('PyErr_Warn', 'CONVERT_AFTER_CALL', 'RETVAL_TO_PYTHON'):
            E.prove('an error after the arguments were accepted returns the error of the call', p.ret_text == 'NULL', names)
    E.prove('arguments can be refused', ('CONVERT_BEFORE_CALL', 'PARSE_ERROR') in kinds, kinds)
