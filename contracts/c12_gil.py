"""C12 - contracts on what brackets the C++ call and the call of a Python override
(pybindgen/typehandlers/base.py), for every list of parameters, return value and table of arguments.

ForwardWrapperBase.generate_body, parameters an arbitrary list: the emitted function
  - runs the conversions, the deprecation warning, the hook and the transfers with the lock held,
  - releases it, if asked to and there are threads, right before the call and only there,
  - takes it back exactly once on every path, before anything that uses Python, and returns with it held;
get_reacquire_gil_code: afterwards the lock is held, and it is not taken twice;
ReverseWrapperBase.generate: the lock is acquired before anything uses Python, released exactly once on every path."""
from . import task, need
from .ghost import *
from . import ctext, wrap
from pybindgen.typehandlers import base
from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase

from .wrap import forward, evaluate, OPAQUE


def threads(p):
    return not any(c.startswith('PyEval_ThreadsInitialized') and taken is False for (c, taken, _) in p.conds)


@task('C12', 'generate_body: the lock is released exactly around the call, any parameters')
def t_body(E):
    unblock = E.choose(2, 'unblock') == 1
    w, f, ret = forward(E, unblock, few=True)
    sink = w.sink()
    k, r = E.outcome(ForwardWrapperBase.generate_body, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    ex = evaluate(E, w, sink.ctext(), 'PyObject *' if ret is not None else 'void *')
    bad = [p for p in ex.problems if p.kind == 'gil']
    E.prove('no use of Python without the lock', not bad, bad[:3])
    E.prove('some path', len(ex.paths) > 0)
    seen = set()
    for p in ex.paths:
        if p.end == 'cut':
            continue
        E.prove('every path returns with the lock held', p.gil == 'held' and p.saved is None or not threads(p), (p.gil, p.conds))
        for e in p.calls():
            if e.name == 'TARGET':
                seen.add(threads(p))
                E.prove('the call is made without the lock if that was asked for', (e.gil == 'released') == (unblock and threads(p)), (e.gil, p.conds))
            if e.name in OPAQUE:
                E.prove('conversions, hooks and transfers run with the lock', e.gil == 'held', (e.name, e.gil))
        E.prove('the lock is released once at most', len(p.calls('PyEval_SaveThread')) <= 1 and len(p.calls('PyEval_SaveThread')) == len(p.calls('PyEval_RestoreThread')), p.conds)
    E.prove('the call is reached', len(seen) > 0, seen)


class GhostReverse(ReverseWrapperBase):
    def generate_python_call(self):
        self.before_call.write_code('py_retval = PYTHON_CALL();')
        self.before_call.write_error_check('py_retval == NULL', 'PyErr_Print();')
        self.before_call.add_cleanup_code('Py_DECREF(py_retval);')


@task('C12', 'ReverseWrapperBase.generate: the lock is held for everything that uses Python, and given back on every path - any parameters')
def t_reverse(E):
    w = wrap.World(E, ('before_call', 'after_call'))
    w.parse = E.choose(2, 'tables')
    void = E.choose(2, 'void') == 0
    ret = wrap.GhostReturn(w, 'void' if void else 'long')
    ret.REQUIRES_ASSIGNMENT_CONSTRUCTOR, ret.NO_RETVAL_DECL = False, False
    JCN = z3.Function('join_ctype_and_name', StrSort, StrSort, StrSort)
    E.contracts[base.join_ctype_and_name] = lambda eng, t, n: SStr([Atom(JCN(eng.z(t), eng.z(n)))])
    E.contracts[ReverseWrapperBase._rename_reserved_parameters] = lambda eng, ps: ps
    P, ax = fold_seq(E, 'parameter_list', w.n, lambda i: z3.Unit(JCN(w.CT(i), w.NM(i))))
    E.loop_specs.append(LoopSpec(lambda t: t is w.seg, [Cand('parameter list', 'list_s', P)], axioms=ax))
    w.names.of[Atom(JOIN(z3.StringVal(', '), P(w.n))).key] = 'PyObject *PARAMETERS'
    f = GhostReverse.__new__(GhostReverse)
    E.call(ReverseWrapperBase.__init__, f, ret, w.parameters, 'return;' if void else 'return ERR;')
    if E.choose(2, 'generated before'):
        E.call(ReverseWrapperBase.reset_code_generation_state, f)
    sink = w.sink()
    k, r = E.outcome(ReverseWrapperBase.generate, f, sink, w.names.new('name', 'F'))
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    ex, u = ctext.run(sink.ctext() + '\n', gil='unheld', known=wrap.KNOWN + ['D1'])
    bad = [p for p in ex.problems if p.kind == 'gil']
    E.prove('no use of Python without the lock', not bad, bad[:3])
    good = 0
    for p in ex.paths:
        if p.end == 'cut':
            continue
        en, de = p.calls('PyGILState_Ensure'), p.calls('PyGILState_Release')
        E.prove('every path gives back what it acquired', (p.gil == 'unheld' and not p.gilstack and len(en) == len(de) == 1) or not threads(p) and not en, (p.gil, p.conds))
        for e in p.calls():
            if e.name in wrap.OPAQUE or e.name == 'RETVAL_FROM_PYTHON':
                E.prove('conversions and the override run with the lock', e.gil == 'held' or not threads(p), (e.name, e.gil))
        names = [e.name for e in p.calls()]
        good += 'RETVAL_FROM_PYTHON' in names and p.ret_text in ('retval', '')
    E.prove('the override is called and its result taken on some path', good > 0)
