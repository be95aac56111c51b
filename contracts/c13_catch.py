"""C13 - contracts on what surrounds the call of a function, method, parent implementation or constructor that declares
exceptions (pybindgen/function.py, cppmethod.py, cppexception.py, typehandlers/base.py), for every list of parameters,
every form of return value, with and without the lock released around the call:

  - the call, and only it, is in the try block; no try block without declared exceptions;
  - the handlers are for the declared types, in the order of the declaration, by constant reference;
  - in a handler, on every path: the lock is taken back, each live clean-up runs once, latest first, then the Python
    exception of that type is set - with the message expression of that exception for the caught object, if one was
    declared - once, and the wrapper reports failure;
  - without an exception the result reaches the conversion of the return value.

Up to three exceptions are evaluated; for any number of them the emitted text is prefix, clause(0) ... clause(m-1), suffix,
with the clause, prefix and suffix of the evaluated cases."""
import re
import z3
from . import task, need
from .ghost import *
from . import ctext, wrap
from pybindgen import cppclass, utils
from pybindgen.cppexception import CppException
from pybindgen.function import Function
from pybindgen.cppmethod import CppMethod, CppConstructor, CppVirtualMethodParentCaller
from pybindgen.typehandlers import codesink
from pybindgen.typehandlers.base import ForwardWrapperBase
from pybindgen.wrapper_registry import NullWrapperRegistry

KNOWN = wrap.KNOWN + ['ARGS', 'CLEANUP0', 'CREATE', 'POST', 'NS', 'CLS', 'EXC0', 'EXC1', 'EXC2', 'TYPE0', 'TYPE1', 'TYPE2', 'CLSTYPE', 'TPL', 'WRAPPED', 'D1', 'D2', 'B1', 'B2']


class Ret(wrap.GhostReturn):
    def convert_c_to_python(self, wrapper):
        wrapper.after_call.write_code('if (RETVAL_TO_PYTHON(%s)) {' % ('' if self.ctype == 'void' else self.value))
        wrapper.after_call.write_error_return()
        wrapper.after_call.write_code('}')


class Traits(object):
    _pyvc_model = True

    def __init__(self, t, ref):
        self.ctype_no_const_no_ref = t
        self.type_is_reference = ref


class GhostHelper(object):
    _pyvc_model = True
    name = 'HELPER'


class GhostClass(object):
    """contract model of a wrapped class"""
    _pyvc_model = True

    def __init__(self, E, helper, constructible=True):
        self.full_name, self.name, self.pystruct, self.pytypestruct = 'CLS', 'CLS', 'PyCLS', 'CLSTYPE'
        self.helper_class = GhostHelper() if helper else None
        self.wrapper_registry = NullWrapperRegistry('CLS')
        self.constructible = constructible

    def get_construct_name(self):
        if not self.constructible:
            raise cppclass.CodeGenerationError('no')
        return self.full_name

    def get_object_address(self, e):
        return e

    def write_create_instance(self, block, lvalue, parameters, construct_type_name=None):
        block.write_code(mkstr([lvalue, ' = CREATE('] + list(block.w.E.interp.pieces(parameters)) + [');']))

    def write_post_instance_creation_code(self, block, lvalue, parameters, construct_type_name=None):
        pass


class GhostModule(object):
    _pyvc_model = True

    def __init__(self, ns):
        self.cpp_namespace_prefix = ns


MESSAGES = [None, '%(EXC)s.what()', '(%(EXC)s).text(7).c_str()']


def exceptions(E, w, k, m):
    out = []
    for i in range(k):
        e = CppException.__new__(CppException)
        e.full_name = w.names.new('exc%d' % i, 'EXC%d' % i)
        e.pytypestruct = w.names.new('type%d' % i, 'TYPE%d' % i)
        e.message_rvalue = MESSAGES[(i + m) % 3]
        out.append(e)
    return out


def world(E):
    w = wrap.World(E)
    w.parse, w.keywords = 2, ('x', 'y')
    CP = z3.Function(E.fresh_name('call_param'), I, StrSort)
    F, ax = fold_seq(E, 'call_params', w.n, lambda i: z3.Unit(CP(i)))
    spec = E.loop_specs[-1]
    spec.cands.append(Cand('call_params', 'list_s', F))
    old = spec.axioms
    spec.axioms = lambda i: list(old(i)) + list(ax(i))
    w.names.of[Atom(JOIN(z3.StringVal(', '), F(w.n))).key] = 'ARGS'
    w.CP = CP
    E.class_models[codesink.MemoryCodeSink] = lambda eng: w.sink()

    def pre(eng, wrapper):
        if w.taken:
            wrapper.declarations.reserve_variable('exc')    # a parameter of that name
        wrapper.before_parse.add_cleanup_code('CLEANUP0();')
        wrapper.before_call.add_cleanup_code('CLEANUP(1);')
        wrapper.before_call.add_cleanup_code('CLEANUP(2);')

    E.contracts[cppclass.implement_parameter_custodians_precall] = pre
    E.contracts[cppclass.implement_parameter_custodians_postcall] = lambda eng, wrapper: None
    return w


class Param(wrap.GhostParam):
    def convert_python_to_c(self, wrapper):
        wrap.GhostParam.convert_python_to_c(self, wrapper)
        w = self._pyvc_w
        w.E.interp.list_method(wrapper.call_params, 'append', [SStr([Atom(w.CP(self._pyvc_i))])], {})


def returns(E, w, c):
    if c == 0:
        return Ret(w, 'void')
    ty = 'long' if c == 1 else 'RT'
    r = Ret(w, ty if c < 3 else 'RT &')
    r.type_traits = Traits(ty, c == 3)
    r.REQUIRES_ASSIGNMENT_CONSTRUCTOR = c >= 2
    return r


def base(E, cls, w, ret, unblock, error='return NULL;'):
    w.seg.make = lambda e, i: Param(w, i)
    f = cls.__new__(cls)
    f.throw = []
    E.call(ForwardWrapperBase.__init__, f, ret, w.parameters, error, error, None, False, unblock)
    f.deprecated = False
    f.custodians_and_wards = []
    return f


def make_function(E, w, ret, unblock):
    f = base(E, Function, w, ret, unblock)
    f.function_name = w.names.new('function', 'TARGET')
    f.foreign_cpp_namespace = None
    f._module = GhostModule([None, 'NS'][w.kind % 2])
    f.template_parameters = ()
    f.self_parameter_pystruct = None
    f.wrapper_base_name = 'F'
    return f


def make_method(E, w, ret, unblock):
    f = base(E, CppMethod, w, ret, unblock)
    f.method_name = w.names.new('method', 'TARGET')
    f.mangled_name = 'M'
    k = w.kind
    f.is_static, f.is_virtual, f.is_pure_virtual = k == 0, k >= 2, False
    f._helper_class = None
    f._class = GhostClass(E, k == 3)
    f.template_parameters = ()
    f.visibility = 'public'
    f.wrapper_base_name = 'F'
    return f


def make_parent_caller(E, w, ret, unblock):
    f = base(E, CppVirtualMethodParentCaller, w, ret, unblock)
    f.method_name = w.names.new('method', 'TARGET')
    f.mangled_name = 'M'
    f.is_static, f.is_virtual, f.is_pure_virtual = False, True, False
    c = GhostClass(E, True)
    f._helper_class = c.helper_class
    c.helper_class.class_ = c

    class Method(object):
        _pyvc_model = True
        class_ = c
    f.method = Method()
    f._class = c
    f.template_parameters = ()
    f.visibility = 'protected'
    f.wrapper_base_name = 'F'
    E.contracts[CppVirtualMethodParentCaller._get_parent_caller_name] = lambda eng, self: 'TARGET'
    return f


def make_constructor(E, w, ret, unblock):
    f = base(E, CppConstructor, w, None, unblock, 'return -1;')
    k = w.kind
    f._class = GhostClass(E, k > 0, k < 2)
    f.visibility = 'public'
    f.wrapper_base_name = 'F'
    return f


def check(E, w, f, excs, text, ctor, unblock):
    ex, u = ctext.run(text + '\n', known=KNOWN)
    E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
    k = len(excs)
    nm, ctx = w.names, None
    want = [(nm.text(e.full_name), nm.text(e.pytypestruct), e.message_rvalue) for e in excs]
    tries = []

    def walk(n):
        if isinstance(n, (list, tuple)):
            for x in n:
                walk(x)
        elif hasattr(n, 'op'):
            if n.op == 'try':
                tries.append(n)
            walk(n.a)
    walk(u.func('F').body(u.types))
    E.prove('one try block if there are exceptions', len(tries) == (1 if k else 0), len(tries))
    if len(tries) != (1 if k else 0):
        return
    if k:
        got = [re.sub(r'\s', '', c[0]) for c in tries[0].a[1]]
        E.prove('the handlers are for the declared types, in order, by constant reference',
                [g if g.startswith('const') else re.sub(r'^(.*)const&$', r'const\1&', g) for g in got] == ['const%s&' % n for n, _, _ in want], got)
    thrown, normal = {}, 0
    for p in ex.paths:
        if p.end == 'cut':
            continue
        E.prove('paths return', p.end == 'return', p.end)
        calls = p.calls()
        th = [e for e in p.events if e.kind == 'throw']
        ca = [e for e in p.events if e.kind == 'catch']
        failed = any(x in p.ret_text for x in ('NULL', '-1'))
        target = [e for e in calls if e.name.split('::')[-1] in ('TARGET', 'CREATE')]
        if any('set_pyobj' in t.what for t in th):
            continue    # generated, does not throw
        for t in th:
            E.prove('only the wrapped call is in the try block', bool(re.match(r'(\w+(::|->))*(TARGET|CREATE)\b', t.what)), t.what)
        E.prove('the wrapped call is made once at most', len(target) <= 1, [e.text for e in target])
        threads = not any(c.startswith('PyEval_ThreadsInitialized') and taken is False for (c, taken, _) in p.conds)
        for e in target:
            E.prove('the call has the arguments', e.argtext == ['ARGS'], (e.argtext, text))
        E.prove('the lock is held at the end', p.gil == 'held', p.conds)
        if not th:
            if target:
                conv = [e for e in calls if e.name == 'RETVAL_TO_PYTHON']
                if f.return_value is not None and 'CONVERT_AFTER_CALL' in [e.name for e in calls] and conv:
                    normal += 1
                    if f.return_value.ctype != 'void':
                        v = conv[0].args[0]
                        o = v.origin
                        E.prove('the result reaches its conversion', result_of(v, target[0]), (v.text, o))
                elif f.return_value is None:
                    normal += 1
            else:
                # a class that cannot be constructed, or refused before the call
                E.prove('without the call it fails', failed, p.ret_text)
            continue
        E.prove('the exception is caught', len(ca) == 1 and len(th) == 1, (len(th), len(ca)))
        i = ca[0].index
        thrown[i] = thrown.get(i, 0) + 1
        after = [e for e in calls if e.seq > ca[0].seq]
        errs = [e for e in after if e.name.startswith('PyErr_')]
        E.prove('the exception is set once', len(errs) == 1, [e.name for e in errs])
        e = errs[0]
        ty = re.sub(r'^\(\s*PyObject\s*\*\s*\)\s*', '', e.argtext[0])
        E.prove('of the declared type', ty == want[i][1], (ty, want[i]))
        if want[i][2] is None:
            E.prove('without a message', e.name == 'PyErr_SetNone', e.name)
        else:
            E.prove('with the declared message of the caught object', e.name == 'PyErr_SetString' and re.sub(r'\s', '', e.argtext[1]) == re.sub(r'\s', '', want[i][2] % dict(EXC=ca[0].name)), e.argtext)
        cl = [(x.name, x.argtext) for x in after if x.name.startswith('CLEANUP')]
        E.prove('each live clean-up runs once, latest first', cl == [('CLEANUP', ['2']), ('CLEANUP', ['1']), ('CLEANUP0', [])], cl)
        E.prove('with the lock held', all(x.gil == 'held' for x in after if x.name.startswith(('CLEANUP', 'PyErr_'))), [(x.name, x.gil) for x in after])
        E.prove('failure is reported', p.ret_text == ('-1' if ctor else 'NULL'), p.ret_text)
        others = [x.name for x in after if not x.name.startswith(('CLEANUP', 'PyErr_', 'PyEval_')) and x.name not in ('what', 'text', 'c_str')]
        E.prove('nothing else is done', not others, others)
    E.prove('every handler is reached', set(thrown) == set(range(k)), thrown)
    E.prove('the normal case is reached', normal > 0)


def result_of(v, e, depth=6):
    """v is the result of the call e, or the object a pointer to it points to"""
    if v is e.result or depth == 0:
        return v is e.result
    o = v.origin
    if not o:
        return False
    for x in o[1:]:
        if x is e.result or x is e or (hasattr(x, 'origin') and result_of(x, e, depth - 1)):
            return True
    return False


def body(E, make, entry, cases):
    """cases: (kind, return value, unblock, exceptions, message)"""
    w = world(E)
    w.kind, c, unblock, n, m = case = cases[E.choose(len(cases), 'case')]
    w.taken = sum(case) % 2 == 1
    ret = returns(E, w, c) if make is not make_constructor else None
    if ret is not None and ret.ctype == 'void':
        ret.type_traits = Traits('void', False)
    w.build = 1 if ret is not None else 0
    f = make(E, w, ret, unblock)
    excs = exceptions(E, w, n, m)
    f.throw = list(excs)
    sink = w.sink()
    k, r = E.outcome(entry, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    pre = ('struct RT { int x; };\nstruct HELPER { int x; };\nstruct PyCLS { PyObject_HEAD CLS *obj; int flags; };\nextern PyTypeObject CLSTYPE;\n')
    check(E, w, f, excs, pre + sink.ctext(), make is make_constructor, unblock)


def cases(kinds, returns, counts):
    """every combination of kind, result and number of exceptions; the lock and the messages vary along"""
    out = []
    for k in range(kinds):
        for c in range(returns):
            for n in counts:
                j = len(out)
                for ub in ((False, True) if n in (0, 2) else [(j // 2) % 2 == 0]):
                    out.append((k, c, ub, n, j % 3))
    return out


@task('C13', 'Function.generate: declared exceptions, any parameters')
def t_function(E):
    body(E, make_function, Function.generate, cases(1, 4, (0, 1, 2, 3)) + cases(2, 1, (2,)))


@task('C13', 'CppMethod.generate: declared exceptions, any parameters')
def t_method(E):
    body(E, make_method, CppMethod.generate, cases(4, 4, (1, 2)) + cases(4, 1, (0,)))


@task('C13', 'CppVirtualMethodParentCaller.generate: declared exceptions, any parameters')
def t_parent(E):
    body(E, make_parent_caller, CppVirtualMethodParentCaller.generate, cases(1, 4, (0, 1, 2)))


@task('C13', 'CppConstructor.generate: declared exceptions, any parameters')
def t_constructor(E):
    body(E, make_constructor, CppConstructor.generate, cases(3, 1, (0, 1, 2)))


def any_number(E, make, kinds, entry, args=()):
    """the text for any number m of exceptions, from the texts for 1 and 2"""
    FN, CV = (z3.Function(E.fresh_name(x), I, StrSort) for x in ('exc_name', 'convert'))
    kind = E.choose(kinds, 'kind')
    unblock = E.choose(2, 'unblock') == 1

    def convert(eng, exc, block, name):
        eng.prove('the caught object is the one named in the handler', block.w.names.text(name) == 'exc', name)
        block.write_code(SStr([Atom(CV(exc.index))]))
    E.contracts[CppException.write_convert_to_python] = convert

    def exc(i):
        e = CppException.__new__(CppException)
        e.index, e.full_name = i, SStr([Atom(FN(i))])
        return e

    def text(throw):
        w = world(E)
        w.kind = kind
        ret = None
        if make is not make_constructor:
            ret = returns(E, w, 1)
        f = make(E, w, ret, unblock)
        f.py_thread_state = 'py_thread_state'
        f.function_name = f.method_name = 'TARGET'
        f.call_params = mklist([('e', 'ARG')])
        f.throw = throw
        if make is make_parent_caller:
            f._helper_variable = 'helper'
        f.before_call.add_cleanup_code('CLEANUP(1);')
        k, r = E.outcome(entry, f, *args)
        E.prove('generated', k == 'ok', r)
        need(k == 'ok', r)
        return f.before_call.sink.get_parts()

    def z(l):
        need(all(k == 'e' for k, _ in l), 'a run')
        return [E.z(v) for _, v in l]
    def at(l, a, b):
        return [z3.substitute(x, (FN(z3.IntVal(a)), FN(b)), (CV(z3.IntVal(a)), CV(b))) for x in l]
    ZI = [z3.IntVal(0), z3.IntVal(1)]
    one, two = z(text([exc(ZI[0])])), z(text([exc(ZI[0]), exc(ZI[1])]))
    size = len(two) - len(one)
    first = [j for j, x in enumerate(one) if FN(ZI[0]).sexpr() in x.sexpr()]
    need(size > 0 and first, 'clauses not found')
    p = first[0]
    clause, rest = one[p:p + size], one[p + size:]
    need(str(two) == str(one[:p] + clause + at(clause, 0, ZI[1]) + rest), 'two handlers are not two of the clauses of one')
    m = z3.Int('len_throw')
    E.assume(m > 0)
    F, ax = fold_seq(E, 'handlers', m, lambda i: z3.Concat(*[z3.Unit(x) for x in at(clause, 0, i)]))
    seg = RecSeg('throw', m, lambda e, i: exc(i))
    E.loop_specs.append(LoopSpec(lambda t: t is seg, [Cand('handlers', 'list_s', F)], axioms=ax))
    got = text(mklist([('s', seg)]))
    seq = lambda l: [z3.Unit(x) for x in l]
    parts = []
    for k, v in got:
        parts.append(z3.Unit(E.z(v)) if k == 'e' else v.seqexpr())
    E.prove('for any number of exceptions: a handler for each, in order', z3.Concat(*parts) == z3.Concat(*(seq(one[:p]) + [F(m)] + seq(rest))), got)


@task('C13', 'Function.generate_call: any number of declared exceptions')
def t_any_function(E):
    any_number(E, make_function, 1, Function.generate_call)


@task('C13', 'CppMethod.generate_call: any number of declared exceptions')
def t_any_method(E):
    any_number(E, make_method, 4, CppMethod.generate_call)


@task('C13', 'CppVirtualMethodParentCaller.generate_call: any number of declared exceptions')
def t_any_parent(E):
    any_number(E, make_parent_caller, 1, CppVirtualMethodParentCaller.generate_call)


@task('C13', 'CppConstructor.generate_call: any number of declared exceptions')
def t_any_constructor(E):
    any_number(E, make_constructor, 3, CppConstructor.generate_call)
