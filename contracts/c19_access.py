"""C19 - contracts on cppattribute.py, cppcustomattribute.py and the declaration of attributes, for any class, attribute,
accessor and type names, and any type handler (whatever its conversions add to the accessor, within the contract of
handlers: the value is read or written where the accessor says, a failure sets an error and leaves before it is written):

  getters return what they read from the declared place and store nothing; setters store the value given in the declared
  place, once, on exactly the paths that report success; no setter passes on the NULL of a deletion (obligations of
  suites/c19.py, here on the accessor of every handler);
  tables: one row per attribute under its declared name, the accessors that were generated, the sentinel;
  declarations: constant attributes have no setter, others do, for the declared class and names."""
import z3
from . import task, need
from .ghost import *
from . import ctext, wrap
from pybindgen import cppattribute, cppcustomattribute, utils, cppclass
from pybindgen.cppattribute import *
from pybindgen.cppcustomattribute import *
from pybindgen.typehandlers import codesink
from pybindgen.typehandlers.base import ReturnValue, ForwardWrapperBase, ReverseWrapperBase, CodeGenerationError, NotSupportedError

PRE = 'struct K {};\nstruct PyCLS { PyObject_HEAD K *obj; };\n'
KNOWN = ['TO_PYTHON', 'FROM_PYTHON', 'CHECK', 'CLS', 'T1', 'T2', 'gget', 'sset']


class Handler(wrap.handler_class(ReturnValue, 'HandlerBase')):
    """contract of a type handler: reads or writes the place it is given"""

    def __init__(self, E, w, assign, how):
        self._pyvc_E, self._pyvc_w = E, w
        self.ctype = w.names.new('ctype', 'CT' if how else 'long')
        self.type_traits = wrap.GhostTraits(self.ctype)
        self.value = 'retval'
        self.REQUIRES_ASSIGNMENT_CONSTRUCTOR = assign
        self.how = how

    def convert_c_to_python(self, wrapper):
        p = list(self._pyvc_E.interp.pieces(self.value))
        b = wrapper.declarations.declare_variable('PyObject *', 'B1')
        wrapper.after_call.write_code(mkstr(['B1 = TO_PYTHON('] + p + [');']))
        if self.how:
            wrapper.after_call.write_error_check('!B1')

    def convert_python_to_c(self, wrapper):
        p = list(self._pyvc_E.interp.pieces(self.value))
        w = self._pyvc_w
        if self.how == 0 and not self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
            w.table = ['"l"', mkstr(['&'] + p)]
            return
        wrapper.declarations.declare_variable('PyObject *', 'D1')
        w.table = ['"O"', '&D1']
        t = [self.ctype.pieces[0], ' '] if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR else []
        wrapper.after_call.write_error_check('!CHECK(D1)', 'PyErr_SetString(PyExc_TypeError, "no");')
        wrapper.after_call.write_code(mkstr(t + p + [' = FROM_PYTHON(D1);']))
        if self.how == 2:
            h = wrapper.after_call.add_cleanup_code('CHECK(D1);')

    def get_c_error_return(self):
        return 'return ERR;'


class Table(object):
    """contract model of the parse table (C03)"""
    _pyvc_model = True

    def __init__(self, w):
        self.w = w

    def clear(self):
        pass

    def is_empty(self):
        return not self.w.table

    def get_parameters(self):
        return list(self.w.table or ['""'])

    def get_keywords(self):
        return None


class Build(object):
    _pyvc_model = True

    def __init__(self, w):
        self.w = w

    def clear(self):
        pass

    def get_parameters(self, force_tuple_creation=False):
        return ['"(N)"' if force_tuple_creation else '"N"', 'B1']

    def get_cleanups(self):
        return []


class GhostClass(object):
    _pyvc_model = True

    def __init__(self, w):
        self.full_name = w.names.new('cls', 'CLS')
        self.pystruct = w.names.new('pystruct', 'PyCLS')


class Count(object):
    """what the obligations of the suite found"""
    def __init__(self):
        self.bad = []

    def count(self, *a):
        pass

    def case(self, *a):
        pass

    def fail(self, key, what, *a):
        self.bad.append(what)


class Emitted(object):
    def __init__(self, unit, name, ex):
        self.unit, self.execs = unit, {name: ex}

    def exec(self, name):
        return self.execs[name]


def world(E):
    w = wrap.World(E)
    w.table = None
    E.class_models[codesink.MemoryCodeSink] = lambda eng: w.sink()
    from pybindgen.typehandlers import base
    E.class_models[base.ParseTupleParameters] = lambda eng: Table(w)
    E.class_models[base.BuildValueParameters] = lambda eng: Build(w)
    return w


def attribute(static=False, getter=None, setter=None, gt=(), st=()):
    from suites.corpus import Attr
    a = Attr('CLS', 'ATTR', 'long', static, getter=getter, setter=setter)
    a.gt, a.st = list(gt), list(st)
    return a


def judge(E, f, sink, a, what):
    from suites import c19
    name = '_wrap_PyCLS__%s_ATTR' % what
    E.prove('the function is named after the class and the attribute', ctext_name(E, f) == name, f.c_function_name)
    text = PRE + sink.ctext() + '\n'
    ex, u = ctext.run(text, name, known=KNOWN)
    E.prove('the emitted code has no error of its own', not ex.problems, [str(x) for x in ex.problems[:3]])
    fn = u.func(name)
    c = Count()
    g = Emitted(u, name, ex)
    (c19.getter if what == 'get' else c19.setter)(c, g, K(), a, name)
    if what == 'set':
        c19.deletion(c, g, fn)
    E.prove('the contract of a %ster' % what, not c.bad, c.bad[:2])
    tys = [c19.norm(t).replace(' ', '') for t, x in fn.params]
    E.prove('the prototype is that of the table', tys[-1] == 'void*' and len(tys) == (2 if what == 'get' else 3) and (what == 'get' or tys[1] == 'PyObject*'), tys)
    return ex


class K(object):
    full, mem, parents = 'CLS', None, ()


def ctext_name(E, f):
    return f.names_.text(f.c_function_name)


def generate(E, w, f, gen):
    sink = w.sink()
    f.names_ = w.names
    k, r = E.outcome(gen, f, sink)
    E.prove('generated', k == 'ok', r)
    return sink if k == 'ok' else None


def handler(E, w):
    return Handler(E, w, E.choose(2, 'assignment constructor') == 1, E.choose(3, 'conversion'))


@task('C19', 'CppInstanceAttributeGetter: reads the member, or calls the getter, and stores nothing - any handler')
def t_get(E):
    w = world(E)
    gt = E.choose(2, 'getter')
    h = handler(E, w)
    f = E.call(CppInstanceAttributeGetter, h, GhostClass(w), w.names.new('attr', 'ATTR'), *([w.names.new('getter', 'gget')] if gt else []))
    h.value = 'somewhere_else'    # a value type object may be shared by several attributes
    s = generate(E, w, f, CppInstanceAttributeGetter.generate)
    if s is not None:
        judge(E, f, s, attribute(getter='gget' if gt else None), 'get')


@task('C19', 'CppStaticAttributeGetter: reads the static member and stores nothing - any handler')
def t_sget(E):
    w = world(E)
    h = handler(E, w)
    f = E.call(CppStaticAttributeGetter, h, GhostClass(w), w.names.new('attr', 'ATTR'))
    h.value = 'somewhere_else'
    s = generate(E, w, f, CppStaticAttributeGetter.generate)
    if s is not None:
        judge(E, f, s, attribute(static=True), 'get')


@task('C19', 'CppInstanceAttributeSetter: stores the value once, or calls the setter once, only on success - any handler')
def t_set(E):
    w = world(E)
    st = E.choose(2, 'setter')
    h = handler(E, w)
    f = E.call(CppInstanceAttributeSetter, h, GhostClass(w), w.names.new('attr', 'ATTR'), *([w.names.new('setter', 'sset')] if st else []))
    s = generate(E, w, f, CppInstanceAttributeSetter.generate)
    if s is not None:
        judge(E, f, s, attribute(setter='sset' if st else None), 'set')


@task('C19', 'CppStaticAttributeSetter: stores the value once, only on success - any handler')
def t_sset(E):
    w = world(E)
    h = handler(E, w)
    f = E.call(CppStaticAttributeSetter, h, GhostClass(w), w.names.new('attr', 'ATTR'))
    s = generate(E, w, f, CppStaticAttributeSetter.generate)
    if s is not None:
        judge(E, f, s, attribute(static=True), 'set')


def templates(E, w, l):
    n = E.choose(3, 'template parameters')
    return [w.names.new('%st%d' % (l, i), 'T%d' % (i + 1)) for i in range(n)], ['T1', 'T2'][:n]


@task('C19', 'CppCustomInstanceAttributeGetter: the function, instance of a template or not, called on the object - any handler')
def t_cget(E):
    w = world(E)
    h = handler(E, w)
    ts, tn = templates(E, w, 'g')
    f = E.call(CppCustomInstanceAttributeGetter, h, GhostClass(w), w.names.new('attr', 'ATTR'), w.names.new('getter', 'gget'), *([ts] if ts else []))
    h.value = 'somewhere_else'
    s = generate(E, w, f, CppCustomInstanceAttributeGetter.generate)
    if s is not None:
        judge(E, f, s, attribute(getter='gget', gt=tn), 'get')


@task('C19', 'CppCustomInstanceAttributeSetter: stores once or calls the function once with the object, only on success - any handler')
def t_cset(E):
    w = world(E)
    h = handler(E, w)
    st = E.choose(2, 'setter')
    ts, tn = templates(E, w, 's') if st else ([], [])
    a = [w.names.new('setter', 'sset')] if st else []
    f = E.call(CppCustomInstanceAttributeSetter, h, GhostClass(w), w.names.new('attr', 'ATTR'), *(a + ([ts] if ts else [])))
    s = generate(E, w, f, CppCustomInstanceAttributeSetter.generate)
    if s is not None:
        judge(E, f, s, attribute(setter='sset' if st else None, st=tn), 'set')


class GhostAccessor(object):
    _pyvc_model = True

    def __init__(self, name, how):
        self.c_function_name, self.how, self.calls = name, how, 0

    def generate(self, sink):
        self.calls += 1
        if self.how == 1:
            raise utils.SkipWrapper
        sink.writeln('int %s(void);' % self.c_function_name)


class Getter(GhostAccessor, wrap.handler_class(PyGetter, "G")):
    pass


class Setter(GhostAccessor, wrap.handler_class(PySetter, 'S')):
    pass


class Lines(object):
    _pyvc_model = True

    def __init__(self):
        self.lines = []

    def writeln(self, t=''):
        if not isinstance(t, str):
            raise Unsupported('text is not literal')
        self.lines.append(t)

    def indent(self, level=4):
        pass

    unindent = indent


def table_rows(u):
    for v in u.vars:
        if v.name == 'TABLE' and 'PyGetSetDef' in v.type and v.init is not None and v.init.op == 'init':
            return [list(r.a[0]) for r in v.init.a[0] if r.op == 'init']
    return None


@task('C19', 'PyGetSetDef: one row per attribute, its name and the accessors that were generated, and the sentinel - up to two attributes')
def t_table(E):
    from suites import c17
    E.contracts[utils.call_with_error_handling] = lambda eng, cb, args, kwargs, wrapper, exceptions_to_handle=None: cb(*args)
    n = 1 + E.choose(2, 'attributes')
    t = E.call(PyGetSetDef, 'TABLE')
    E.prove('empty at first', E.call(PyGetSetDef.empty, t) is True)
    want = []
    all_ = []
    for i in range(n):
        g, s = E.choose(3, 'getter'), E.choose(3, 'setter')
        cn = [None, 'custom%d' % i][E.choose(2, 'name')]
        go, so = [Getter('g%d' % i, g) if g < 2 else None, Setter('s%d' % i, s) if s < 2 else None]
        all_ += [x for x in (go, so) if x is not None]
        E.call(PyGetSetDef.add_attribute, t, 'a%d' % i, go, so, *([cn] if cn else []))
        if g == 0 or s == 0:
            want.append((cn or 'a%d' % i, 'g%d' % i if g == 0 else 'NULL', 's%d' % i if s == 0 else 'NULL'))
    E.prove('not empty', E.call(PyGetSetDef.empty, t) is False)
    s = Lines()
    k, r = E.outcome(PyGetSetDef.generate, t, s)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    E.prove('each accessor is generated once', all(a.calls == 1 for a in all_), [(a.c_function_name, a.calls) for a in all_])
    E.prove('the name of the table, or 0', r == ('TABLE' if want else '0'), r)
    text = '\n'.join(s.lines) + '\n'
    from minic.parser import Unit
    u = Unit(text)
    rows = table_rows(u)
    if not want:
        E.prove('no table', rows is None, text)
        return
    E.prove('a table', rows is not None and len(rows) > 0 and c17.null_row(rows[-1]), text)
    if rows is None:
        return
    got = [(c17.cstr(r[0]), c17.cfun(r[1]), c17.cfun(r[2])) for r in rows[:-1]]
    E.prove('the rows', sorted(got) == sorted(want), got)


class Made(object):
    """an accessor that was made, and for what"""
    _pyvc_model = True

    def __init__(self, kind, cls, args):
        self.kind, self.cls, self.args = kind, cls, args


class Recorded(object):
    _pyvc_model = True

    def __init__(self):
        self.attributes = []

    def add_attribute(self, name, getter, setter, custom_name=None):
        self.attributes.append((name, getter, setter, custom_name))


def declare(E, which):
    ret = wrap.GhostReturn.__new__(wrap.GhostReturn)
    given = E.choose(3, 'type')            # a value type object, a specification, a specification that is refused

    def eval_retval(eng, value, wrapper=None):
        if value is ret:
            return ret
        E.prove('the type declared is looked up', value == 'spec', value)
        if given == 2:
            raise utils.SkipWrapper
        return ret
    E.contracts[utils.eval_retval] = eval_retval
    made = []

    def model(kind, cls):
        def mk(eng, value_type, class_, attribute_name, getter=None, template_parameters=[], setter=None):
            m = Made(kind, cls, (value_type, class_, attribute_name, getter if kind == 'get' else setter, list(template_parameters)))
            made.append(m)
            return m
        if kind == 'set':
            return lambda eng, value_type, class_, attribute_name, setter=None, template_parameters=[]: mk(eng, value_type, class_, attribute_name, None, template_parameters, setter)
        return mk
    for kind, cls in (('get', CppInstanceAttributeGetter), ('get', CppStaticAttributeGetter), ('get', CppCustomInstanceAttributeGetter),
                      ('set', CppInstanceAttributeSetter), ('set', CppStaticAttributeSetter), ('set', CppCustomInstanceAttributeSetter)):
        E.class_models[cls] = model(kind, cls)
    c = cppclass.CppClass.__new__(cppclass.CppClass)
    c.instance_attributes, c.static_attributes = Recorded(), Recorded()
    const = E.choose(2, 'const') == 1
    name = E.str('name', nonempty=True)
    kw = {}
    getter = setter = None
    if which != 'static':
        getter = E.str('getter', nonempty=True) if which == 'custom' or E.choose(2, 'getter') else None
        setter = E.str('setter', nonempty=True) if not const and E.choose(2, 'setter') else None
        if E.choose(2, 'name'):
            kw['custom_name'] = E.str('custom', nonempty=True)
        if setter is not None:
            kw['setter'] = setter
    gt = st = []
    if which == 'custom' and E.choose(2, 'templates'):
        gt, st = ['A', 'B'], ['C']
        kw['getter_template_parameters'], kw['setter_template_parameters'] = gt, st
    spec = ret if given == 0 else 'spec'
    C = cppclass.CppClass
    if which == 'static':
        f, args = C.add_static_attribute, (name, spec)
    elif which == 'custom':
        f, args = C.add_custom_instance_attribute, (name, spec, getter)
    else:
        f, args = C.add_instance_attribute, (name, spec)
        if getter is not None:
            kw['getter'] = getter
    k, r = E.outcome(f, c, *args, is_const=const, **kw)
    E.prove('declared', k == 'ok', r)
    if k != 'ok':
        return
    mine, other = (c.static_attributes, c.instance_attributes) if which == 'static' else (c.instance_attributes, c.static_attributes)
    E.prove('not in the other table', not other.attributes)
    if given == 2:
        E.prove('nothing is declared for a type that is refused', not mine.attributes and not made)
        return
    E.prove('declared once', len(mine.attributes) == 1)
    for (n, g, s, cn) in mine.attributes:
        same = lambda a, b: a is b or a == b
        E.prove('under its name', same(n, name) and same(cn, kw.get('custom_name')), (n, cn))
        kinds = {'static': (CppStaticAttributeGetter, CppStaticAttributeSetter), 'custom': (CppCustomInstanceAttributeGetter, CppCustomInstanceAttributeSetter),
                 'instance': (CppInstanceAttributeGetter, CppInstanceAttributeSetter)}[which]
        E.prove('constant attributes have no setter, others do', (s is None) == const, s)
        for x, cls, fn, ts in ((g, kinds[0], getter, gt), (s, kinds[1], setter, st)):
            if x is None:
                continue
            E.prove('the kind of accessor', isinstance(x, Made) and x.cls is cls, '%s' % (cls.__name__,))
            vt, cl, an, fun, tp = x.args
            E.prove('for the type, class, member and function declared', vt is ret and cl is c and an is name and fun is fn and tp == ts, '%s %s' % (x.kind, tp))


@task('C19', 'add_instance_attribute: accessors of the declared member, type and functions; constant ones have no setter')
def t_add(E):
    declare(E, 'instance')


@task('C19', 'add_static_attribute: accessors of the declared member and type; constant ones have no setter')
def t_sadd(E):
    declare(E, 'static')


@task('C19', 'add_custom_instance_attribute: accessors of the declared functions and templates; constant ones have no setter')
def t_cadd(E):
    declare(E, 'custom')
