"""C14 - contract on the moment ownership is handed over (ForwardWrapperBase.generate_body), for every list of parameters and
of transfers: after everything that can refuse the call and before the call; there is no way between the transfers and the
call that leaves the wrapper."""
from . import task, need
from .ghost import *
from .wrap import forward, evaluate
from pybindgen.typehandlers.base import ForwardWrapperBase


@task('C14', 'generate_body: arguments are handed over exactly when the call is made - any parameters, any transfers')
def t_transfers(E):
    w, f, ret = forward(E, E.choose(2, 'unblock') == 1, few=True)
    sink = w.sink()
    k, r = E.outcome(ForwardWrapperBase.generate_body, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    ex = evaluate(E, w, sink.ctext(), 'PyObject *' if ret is not None else 'void *')
    some = 0
    for p in ex.paths:
        if p.end == 'cut':
            continue
        names = [e.name for e in p.calls()]
        E.prove('handed over once if the call is made, else not at all', names.count('TRANSFER') == names.count('TARGET') and names.count('TARGET') <= 1, names)
        if 'TARGET' in names:
            some += 1
            E.prove('before the call', 'TRANSFER' in names and names.index('TRANSFER') < names.index('TARGET'), names)
            E.prove('after everything that can refuse', not [x for x in names[names.index('TRANSFER'):] if x in ('CONVERT_BEFORE_PARSE', 'CONVERT_BEFORE_CALL', 'PyErr_Warn')], names)
    E.prove('the call is made on some path', some > 0)
