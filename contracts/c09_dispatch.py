"""C09 - contracts on overloading.py, for up to four overloads of a name, each of which may turn out not to be generated, any
flags and docstrings:

  OverloadedWrapper.generate: every overload is given its own name and the overloading interface, its refusal hands the
      exception over and leaves none set; those that are generated are tried in the order of their declaration by the
      dispatcher, under the contract of dispatchers of suites/c09.py (slots, first acceptance, TypeError with all messages,
      references); one that is not generated is not called; a single one is the wrapper itself; none is a skipped wrapper;
  _normalize_py_method_flags: what remains has the same flags, in order, parsing forced, unless one remains, which is then
      as it was; one that was removed was refused or has other flags;
  add: appended, in order; _get_docstring: the common one or a conflict."""
import z3
from . import task, need
from .ghost import *
from . import ctext, wrap
from pybindgen import overloading, utils
from pybindgen.overloading import OverloadedWrapper
from pybindgen.function import OverloadedFunction
from pybindgen.cppmethod import CppOverloadedMethod, CppOverloadedConstructor
from pybindgen.typehandlers.base import CodeGenerationError, ForwardWrapperBase

PRE = 'struct PyCLS { PyObject_HEAD int *obj; };\n'
MAX = 4


class Overload(wrap.handler_class(ForwardWrapperBase, 'OverloadBase')):
    """contract of one overload (C09, generate_body)"""

    def __init__(self, E, i, cls, flags):
        self._pyvc_E, self.index = E, i
        self.cls = cls
        self.wrapper_base_name = '_wrap_F'
        self.docstring = None
        self.flags = flags
        self.force_parse = None
        self.wrapper_actual_name = self.wrapper_return = self.wrapper_args = None
        self.generated = 0
        self.error = None
        self.fails_flags = False

    def get_py_method_def_flags(self):
        if self.fails_flags:
            raise CodeGenerationError('flags')
        return list(self.flags if self.force_parse == self.PARSE_TUPLE_AND_KEYWORDS else ['METH_NOARGS'])

    def set_parse_error_return(self, text):
        self.error = text

    def generate(self, sink, name=None, extra_wrapper_params=()):
        self.generated += 1
        self.wrapper_actual_name = self.wrapper_base_name if name is None else name
        self.wrapper_return = 'static int' if self.cls is CppOverloadedConstructor else 'PyObject *'
        self.wrapper_args = ['PyCLS *self', 'PyObject *args', 'PyObject *kwargs'] + list(extra_wrapper_params)
        sink.writeln('%s\n%s(%s);' % (self.wrapper_return, self.wrapper_actual_name, ', '.join(self.wrapper_args)))


class Sink(object):
    _pyvc_model = True

    def __init__(self):
        self.lines = []

    def writeln(self, text=''):
        if not isinstance(text, str):
            raise Unsupported('text is not literal: %r' % (text,))
        self.lines.append(text)

    def indent(self, level=4):
        pass

    def unindent(self):
        pass


def run_or_skip(E, name=None):
    """contract of call_with_error_handling (C08)"""
    def call(eng, callback, args, kwargs, wrapper, exceptions_to_handle=None):
        if not wrapper.skip:
            try:
                return eng.interp.call(callback, list(args), dict(kwargs))
            except CodeGenerationError:
                if E.handler:
                    raise utils.SkipWrapper
                raise
        raise utils.SkipWrapper
    E.contracts[utils.call_with_error_handling] = call
    E.handler = True


def make(E, cls, k, flags=('METH_VARARGS', 'METH_KEYWORDS')):
    o = E.call(cls, 'F')
    o.pystruct = 'PyCLS'
    ws = []
    for i in range(k):
        w = Overload(E, i, cls, list(flags))
        w.skip = False
        ws.append(w)
        r = E.call(OverloadedWrapper.add, o, w)
        E.prove('add returns the wrapper', r is w, r)
    E.prove('added in order', [x is y for x, y in zip(o.wrappers, ws)] == [True] * k and len(o.wrappers) == k, o.wrappers)
    return o, ws


def dispatch(E, cls):
    from suites import c09
    run_or_skip(E)
    k = 1 + E.choose(MAX, 'overloads')
    o, ws = make(E, cls, k)
    E.contracts[OverloadedWrapper._normalize_py_method_flags] = lambda eng, self: None
    for w in ws:
        w.skip = E.choose(2, 'skipped') == 1
        w.force_parse = ForwardWrapperBase.PARSE_TUPLE_AND_KEYWORDS if k > 1 else None
    sink = Sink()
    kind, r = E.outcome(OverloadedWrapper.generate, o, sink)
    left = [w for w in ws if not w.skip]
    if not left:
        E.prove('nothing to dispatch to is a skipped wrapper', kind == 'exc' and isinstance(r, utils.SkipWrapper), r)
        return
    E.prove('generated', kind == 'ok', r)
    if kind != 'ok':
        return
    for w in ws:
        E.prove('each overload is generated once', w.generated == (0 if w.skip else 1), (w.index, w.generated))
    E.prove('the dispatcher has a name', o.wrapper_actual_name is not None and o.wrapper_args is not None and o.wrapper_return is not None)
    text = PRE + '\n'.join(sink.lines) + '\n'
    if k == 1:
        E.prove('a single function is its own wrapper', o.wrapper_actual_name == ws[0].wrapper_actual_name and o.wrapper_args == ws[0].wrapper_args and o.wrapper_return == ws[0].wrapper_return)
        E.prove('and reports errors itself', ws[0].error is None and len(ws[0].wrapper_args) == 3, ws[0].error)
        return
    names = [w.wrapper_actual_name for w in left]
    E.prove('overloads have names of their own', len(set(names + [o.wrapper_actual_name])) == len(names) + 1, names)
    failing = '-1' if cls is CppOverloadedConstructor else 'NULL'
    for w in left:
        E.prove('overloads take an exception slot', w.wrapper_args[3:] == ['PyObject **return_exception'], w.wrapper_args)
        E.prove('a refusal is handed over', w.error is not None)
        ex, u = ctext.run('%s REFUSE(PyCLS *self, PyObject *args, PyObject *kwargs, PyObject **return_exception)\n{\n%s\n}\n' % (w.wrapper_return, PREFUSE + w.error), 'REFUSE', known=['BAD'])
        E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
        for p in ex.paths:
            if p.end == 'cut':
                continue
            fetch = p.calls('PyErr_Fetch')
            E.prove('the error is taken out once', len(fetch) == 1, [e.name for e in p.calls()])
            v = [e for e in fetch[0].args]
            E.prove('its value goes to the slot', len(v) == 3 and v[1].id == p.params['return_exception'].id, [x.text for x in v])
            E.prove('the failure value is returned', p.ret_text == failing, p.ret_text)
            rel = [e.argtext[0] for e in p.calls() if e.name in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR')]
            E.prove('type and traceback are released, the value is not', sorted(rel) == ['fetched0', 'fetched2'], rel)
    ex, u = ctext.run(text, o.wrapper_actual_name)
    E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
    f = u.func(o.wrapper_actual_name)
    E.prove('the prototype is the one given', [x[1] for x in f.params] == ['self', 'args', 'kwargs'], f.params)
    accepted = set()
    for p in ex.paths:
        if p.end == 'cut':
            continue
        bad = c09.path_problem(f, p, c09.slot_calls(p), names, failing, accepted)
        E.prove('the contract of a dispatcher', bad is None, bad)
    E.prove('each overload can be the one called', accepted == set(names), (accepted, names))


PREFUSE = 'PyErr_SetString(PyExc_TypeError, "no");\n'


@task('C09', 'OverloadedFunction.generate: the contract of a dispatcher')
def t_function(E):
    dispatch(E, OverloadedFunction)


@task('C09', 'CppOverloadedMethod.generate: the contract of a dispatcher')
def t_method(E):
    dispatch(E, CppOverloadedMethod)


@task('C09', 'CppOverloadedConstructor.generate: the contract of a dispatcher')
def t_constructor(E):
    dispatch(E, CppOverloadedConstructor)


@task('C09', '_normalize_py_method_flags: what remains agrees, in order, and is forced to parse')
def t_normalize(E):
    run_or_skip(E)
    E.handler = E.choose(2, 'handler') == 1
    k = 1 + E.choose(3, 'overloads')
    o, ws = make(E, OverloadedFunction, k)
    forced = [None, ForwardWrapperBase.PARSE_TUPLE][E.choose(2, 'forced')]
    for w in ws:
        w.force_parse = forced
        c = E.choose(3, 'flags') if k > 1 else 0
        w.fails_flags = c == 2
        w.flags = ['METH_VARARGS', 'METH_KEYWORDS'] if c == 0 else ['METH_VARARGS']
    kind, r = E.outcome(OverloadedWrapper._normalize_py_method_flags, o)
    left = list(o.wrappers)
    good = [w for w in ws if not w.fails_flags]
    agree = [w for w in good if w.flags == good[0].flags]
    if kind == 'exc':
        E.prove('an error propagates only if nobody handles it, and there is one', isinstance(r, CodeGenerationError) and not E.handler and len(agree) < k, r)
        return
    if not E.handler:
        E.prove('an error is not lost', len(agree) == k)
    E.prove('the first that can be generated and those that agree with it remain, in order', [w.index for w in left] == [w.index for w in agree], [w.index for w in left])
    if len(left) == 1:
        E.prove('a single one is as it was', left[0].force_parse == forced, left[0].force_parse)
    for w in left if len(left) > 1 else []:
        E.prove('parsing is forced', w.force_parse == ForwardWrapperBase.PARSE_TUPLE_AND_KEYWORDS, w.force_parse)


@task('C09', '_get_docstring: the common docstring or a conflict')
def t_docstring(E):
    run_or_skip(E)
    k = 1 + E.choose(3, 'overloads')
    o, ws = make(E, OverloadedFunction, k)
    docs = [None, 'one', 'two']
    for w in ws:
        w.docstring = docs[E.choose(3, 'docstring')]
    o.all_wrappers = list(ws)
    kind, r = E.outcome(OverloadedWrapper._get_docstring, o)
    have = set(w.docstring for w in ws) - set([None])
    if len(have) > 1:
        E.prove('a conflict is an error', kind == 'exc' and isinstance(r, CodeGenerationError), r)
    else:
        E.prove('the docstring', kind == 'ok' and r == (list(have)[0] if have else None), r)
