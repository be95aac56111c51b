"""C08 - contracts on call_with_error_handling, eval_param and eval_retval (pybindgen/utils.py).

call_with_error_handling(callback, args, kwargs, wrapper, handled), callback arbitrary (returns
any value, or raises an exception of any class), handler arbitrary (answers any truth value):
  callback returns v             -> returns v, handler not asked
  raises e, no handler           -> e propagates
  raises e not in handled        -> e propagates, handler not asked
  raises e in handled            -> handler asked exactly once, with the wrapper and e itself;
                                    answer true: SkipWrapper; false: e propagates
The callback is called exactly once with the given arguments.  Exceptions are told apart only by
the classes they are instances of: one class per outcome of the tests on the handled classes,
of Exception, and of neither, stands for all of them."""
from . import task, need
from .ghost import *
from pybindgen import utils, settings
from pybindgen.utils import SkipWrapper, call_with_error_handling
from pybindgen.typehandlers.base import (CodeGenerationError, NotSupportedError, TypeConfigurationError,
                                         TypeLookupError, Parameter, ReturnValue)


def sub(cls):
    return type('Derived' + cls.__name__, (cls,), {})


CLASSES = [CodeGenerationError, NotSupportedError, TypeConfigurationError, TypeLookupError]
ANY = CLASSES + [sub(c) for c in CLASSES] + [ValueError, AttributeError, type('Other', (Exception,), {}), SkipWrapper,
                                             type('OtherBase', (BaseException,), {})]


class Boom(object):
    """what the callback does"""


class GhostHandler(object):
    _pyvc_model = True

    def __init__(self, answer):
        self.answer, self.asked = answer, []

    def handle_error(self, wrapper, exception, traceback_):
        self.asked.append((wrapper, exception))
        return self.answer


def setup(E):
    have = E.choose(2, 'handler') == 0
    h = GhostHandler(E.bool('answer')) if have else None
    return h


def callback(E, calls, err, value):
    def f(*args, **kwargs):
        raise NotImplementedError

    def contract(eng, *args, **kwargs):
        calls.append((args, kwargs))
        if err is not None:
            raise err
        return value
    E.contracts[f] = contract
    return f


def outcome(E, fn, *args, **kwargs):
    try:
        return 'ok', E.interp.call(fn, list(args), dict(kwargs))
    except BaseException as e:
        if type(e).__module__.startswith(('z3', 'pyvc')):
            raise
        return 'exc', e


def judge(E, h, handled, err, value, k, r, w, calls, args, kwargs):
    E.prove('the callback is called once with the arguments', len(calls) == 1 and all(a is b for a, b in zip(calls[0][0], args)) and len(calls[0][0]) == len(args)
            and calls[0][1] == kwargs, calls)
    if err is None:
        E.prove('its value is returned', k == 'ok' and r is value, r)
        E.prove('the handler is not asked', h is None or not h.asked)
        return
    if h is None or not isinstance(err, handled):
        E.prove('the error itself propagates', k == 'exc' and r is err, r)
        E.prove('the handler is not asked about it', h is None or not h.asked, h and h.asked)
        return
    E.prove('the handler is asked once, about this wrapper and this error', len(h.asked) == 1 and h.asked[0][0] is w and h.asked[0][1] is err, h.asked)
    if E.decide(h.answer.expr):
        E.prove('continuing skips the wrapper', k == 'exc' and isinstance(r, SkipWrapper) and r is not err, r)
    else:
        E.prove('declining lets the error itself propagate', k == 'exc' and r is err, r)


def with_handler(h, f):
    old = settings.error_handler
    settings.error_handler = h
    try:
        return f()
    finally:
        settings.error_handler = old


@task('C08', 'call_with_error_handling: the handler decides on generation errors, all others propagate')
def t_call(E):
    h = setup(E)
    i = E.choose(len(ANY) + 1, 'outcome')
    err = None if i == len(ANY) else ANY[i]('refused')
    own = E.choose(3, 'classes')
    handled = [None, (ValueError,), tuple(CLASSES[1:])][own]
    value = E.val('value')
    w = E.val('wrapper')
    calls = []
    n = E.choose(3, 'arguments')
    args, kwargs = tuple(E.val('arg') for j in range(n)), ({} if E.choose(2, 'keywords') else {'x': E.val('x')})
    f = callback(E, calls, err, value)
    extra = {} if handled is None else {'exceptions_to_handle': handled}
    k, r = with_handler(h, lambda: outcome(E, call_with_error_handling, f, args, kwargs, w, **extra))
    judge(E, h, handled or tuple(CLASSES[:3]), err, value, k, r, w, calls, args, kwargs)


def evaluation(label, fn, cls, name):
    @task('C08', '%s: a type that cannot be found or configured is offered to the handler, a ready object is taken as it is' % label)
    def t(E):
        h = setup(E)
        ready = E.choose(2, 'ready') == 0
        w = E.val('wrapper')
        if ready:
            p = cls.__new__(type('Ready', (cls,), {'CTYPES': [], 'DIRECTIONS': [], '__abstractmethods__': frozenset()}))
            k, r = with_handler(h, lambda: outcome(E, fn, p, w))
            E.prove('the object itself', k == 'ok' and r is p, r)
            return
        i = E.choose(len(ANY) + 1, 'outcome')
        err = None if i == len(ANY) else ANY[i]('refused')
        value = E.val('value')
        calls = []

        def contract(eng, *args, **kwargs):
            calls.append((args, kwargs))
            if err is not None:
                raise err
            return value
        E.contracts[getattr(cls, 'new').__func__] = lambda eng, c, *a, **kw: contract(eng, *a, **kw)
        kwargs = {} if E.choose(2, 'keywords') else {'x': E.val('x')}
        args = tuple(E.str('arg') for j in range(2))
        k, r = with_handler(h, lambda: outcome(E, fn, args + (kwargs,), w))
        judge(E, h, (TypeConfigurationError, NotSupportedError, TypeLookupError), err, value, k, r, w, calls, args, kwargs)
    return t


evaluation('eval_param', utils.eval_param, Parameter, 'param')
evaluation('eval_retval', utils.eval_retval, ReturnValue, 'retval')
