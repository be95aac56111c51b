"""Contracts of the handlers of wrapped classes, and of what destroys wrappers: a class object of the real constructor, with
arbitrary names, of every memory policy, copyable or not, subclassable, with a helper class, with type narrowing, with and
without a wrapper registry.  What its functions emit is evaluated on all paths."""
import re
from pyvc.values import *
from . import ctext, wrap, hworld
from suites.own import Kind
from suites import corpus
from pybindgen import cppclass
from pybindgen.cppclass import CppClass
from pybindgen.typehandlers import base, ctypeparser, smart_ptr
from pybindgen.wrapper_registry import StdMapWrapperRegistry, NullWrapperRegistry

POLICIES = ['plain', 'refm', 'reff', 'free', 'boost', 'std']
VARIANTS = ['copyable', 'not copyable', 'subclassable', 'helper', 'helper, not copyable', 'narrowing', 'narrowing, helper']
CLS, PY = 'VC1', 'PyVC1'


class Helper(object):
    _pyvc_model = True

    def __init__(self, name):
        self.name = name


class GhostModule(object):
    _pyvc_model = True

    def __init__(self, names):
        self.after_init = ctext.TextBlock(names)
        self.includes = []

    def add_include(self, x):
        self.includes.append(x)


class Klass(object):
    """the class under contract, and its declaration as the suites have it"""
    _pyvc_model = True

    def __init__(self, E, w, policy, variant, registry, **kw):
        n = w.names
        self.w, self.policy, self.variant, self.registry = w, policy, variant, registry
        mem = {'plain': lambda: None,
               'refm': lambda: cppclass.ReferenceCountingMethodsPolicy(n.new('incref', 'Ref'), n.new('decref', 'Unref'), n.new('peekref', 'PeekRef')),
               'reff': lambda: cppclass.ReferenceCountingFunctionsPolicy(n.new('incref', 'xref'), n.new('decref', 'xunref')),
               'free': lambda: cppclass.FreeFunctionPolicy(n.new('free', 'xfree')),
               'boost': lambda: smart_ptr.BoostSharedPtr('::' + CLS),
               'std': lambda: smart_ptr.StdSharedPtr('::' + CLS)}[policy]()
        helper = 'helper' in variant
        c = CppClass(CLS, memory_policy=mem, allow_subclassing=helper or variant == 'subclassable', automatic_type_narrowing='narrowing' in variant, **kw)
        self.cls = c
        c.full_name = n.new('full_name', CLS)
        c._pystruct = n.new('pystruct', PY)
        c.pytypestruct = n.new('pytypestruct', PY + '_Type')
        c.typeid_map_name = n.new('typeid_map', PY + '__typeid_map')
        c.has_copy_constructor = 'not copyable' not in variant
        c.has_trivial_constructor = True
        c._have_pure_virtual_methods = False
        c.helper_class = Helper(n.new('helper', PY + '__PythonHelper')) if helper else None
        self.maps, self.decls = set(), []
        if registry:
            c._wrapper_registry = E.call(StdMapWrapperRegistry, PY)
            sink = ctext.TextBlock(n)
            E.call(StdMapWrapperRegistry.generate_forward_declarations, c._wrapper_registry, sink, GhostModule(n), None)
            self.decls = sink.lines
            self.maps = set([PY + '_wrapper_registry'])
        else:
            c._wrapper_registry = E.call(NullWrapperRegistry, PY)
        self.kind = Kind({'boost': 'shared', 'std': 'shared'}.get(policy, policy), *{'refm': ('Ref', 'Unref'), 'reff': ('xref', 'xunref')}.get(policy, (None, None)),
                         free='xfree' if policy == 'free' else None)
        # as declared, for the suites
        d = self.spec = corpus.Cls(CLS, 'c', subclassable=helper)
        d.struct, d.helper, d.private = PY, PY + '__PythonHelper' if helper else None, c.destructor_visibility != 'public' and policy == 'plain'       # with a policy, it is the policy's function that frees
        d.singleton = c.is_singleton
        d.copyable = c.has_copy_constructor

    def __repr__(self):
        return 'class (%s, %s, %s)' % (self.policy, self.variant, 'registry' if self.registry else 'no registry')

    def ks(self):
        return {CLS: self.kind}

    def structs(self):
        return {PY: self.kind}

    def structs20(self):
        return {PY: (self.spec, self.kind)}

    def prelude(self):
        ptr = {'boost': 'boost::shared_ptr< %s > ' % CLS, 'std': 'std::shared_ptr< %s > ' % CLS}.get(self.policy, '%s *' % CLS)
        L = ['class %s;' % CLS, 'typedef struct {\n    PyObject_HEAD\n    %sobj;\n    %sPyBindGenWrapperFlags flags:8;\n} %s;' % (
            ptr, 'PyObject *inst_dict;\n    ' if self.cls.allow_subclassing else '', PY), 'extern PyTypeObject %s_Type;' % PY]
        if self.cls.automatic_type_narrowing:
            L.append('extern pybindgen::TypeMap %s__typeid_map;' % PY)
        if self.cls.helper_class is not None:
            L.append('class %s__PythonHelper : public %s\n{\npublic:\n    PyObject *m_pyself;\n};' % (PY, CLS))
        return '\n'.join(L + self.decls) + '\n'

    def unit(self, text):
        """the text with the declarations; object-like macros expanded"""
        macros = [m.groups() for m in re.finditer(r'^\s*#\s*define\s+(\w+)\s+(.*)$', '\n'.join(self.decls), re.M)]
        for a, b in macros:
            text = re.sub(r'\b%s\b' % re.escape(a), lambda m: b, text)
        return re.sub(r'^\s*#.*$', '', self.prelude(), flags=re.M) + text


KNOWN = hworld.KNOWN + ['SELF', CLS, PY, 'Ref', 'Unref', 'PeekRef', 'xref', 'xunref', 'xfree']


class Failures(object):
    """collector for the suites' obligations"""
    _pyvc_model = True

    def __init__(self):
        self.bad, self.n = [], {}

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def case(self, *a):
        pass

    def fail(self, key, msg, detail='', f=None):
        self.bad.append('%s: %s' % (msg, detail))


class G(object):
    """evaluations of the emitted functions"""
    _pyvc_model = True

    def __init__(self, text, known, name=None):
        self.text = text
        self.ex, self.unit = {}, None
        self.known = known

    def exec(self, name):
        if name not in self.ex:
            self.ex[name], u = ctext.run(self.text, name, known=self.known)
            self.unit = self.unit or u
        return self.ex[name]


# ------------------------------------------------------------------ handlers

def ptypes(k):
    """handlers of the class as a parameter: (form, C type, handler, options)"""
    c = k.cls
    tf = [('transfer_ownership', [False, True]), ('null_ok', [False, True])]
    if k.kind.kind == 'shared':
        sp = {'boost': 'boost::shared_ptr< %s >' % CLS, 'std': 'std::shared_ptr< %s >' % CLS}[k.policy]
        return [('val', CLS, c.ThisClassParameter, []), ('ref', CLS + ' &', c.ThisClassRefParameter, []), ('shared', sp, c.ThisClassSharedPtrParameter, [('null_ok', [False, True])])]
    return [('val', CLS, c.ThisClassParameter, []), ('ref', CLS + ' &', c.ThisClassRefParameter, []), ('ptr', CLS + ' *', c.ThisClassPtrParameter, tf)]


def rtypes(k):
    c = k.cls
    pol = [dict(caller_owns_return=True), dict(caller_owns_return=False), dict(caller_owns_return=False, reference_existing_object=True),
           dict(caller_owns_return=False, caller_manages_return=False), dict(caller_owns_return=False, free_after_copy=True)]
    rol = [{}, dict(reference_existing_object=True), dict(caller_owns_return=True), dict(caller_manages_return=False)]
    # sharing an object returned by reference with a shared pointer: what is emitted is not C++ (a pointer is assigned), no run
    out = [('val', CLS, c.ThisClassReturn, [{}]), ('ref', CLS + ' &', c.ThisClassRefReturn, rol[:1] if k.kind.kind == 'shared' else rol)]
    if k.kind.kind == 'shared':
        sp = {'boost': 'boost::shared_ptr< %s >' % CLS, 'std': 'std::shared_ptr< %s >' % CLS}[k.policy]
        return out + [('shared', sp, c.ThisClassSharedPtrReturn, [{}])]
    return out + [('ptr', CLS + ' *', c.ThisClassPtrReturn, pol)]


class ClassCase(hworld.Case):
    """one handler of a class, in one position"""
    _pyvc_model = True

    def __init__(self, E, kind, forward, policy):
        self.E, self.kind, self.forward = E, kind, forward
        self.w = wrap.World(E)
        n = self.w.names
        self.k = k = Klass(E, self.w, policy, VARIANTS[E.choose(len(VARIANTS), 'variant')], E.choose(2, 'registry') == 1)
        types = ptypes(k) if kind == 'param' else rtypes(k)
        self.form, self.ctype, self.hcls, opts = types[E.choose(len(types), 'form')]
        self.inplace = False
        self.const = self.form in ('ref', 'ptr') and E.choose(2, 'const') == 1
        if self.const:
            self.ctype = 'const ' + self.ctype
        self.cls = self.hcls
        self.kw, self.default, self.held = {}, None, False
        if kind == 'param':
            self.name = n.new('name', 'NAME')
            ds = self.hcls.DIRECTIONS if self.form == 'ref' or self.form == 'ptr' and not forward else self.hcls.DIRECTIONS[:1]
            self.direction = ds[E.choose(len(ds), 'direction')]
            self.kw['direction'] = self.direction
            self.inplace = bool(self.direction & 2) and (self.direction == 3 or not forward)
            for o, vs in opts:
                v = vs[E.choose(len(vs), o)]
                if v or o == 'transfer_ownership':
                    self.kw[o] = v
            if forward and self.direction == 1:
                if E.choose(2, 'default'):
                    self.default = 'NULL' if self.form in ('ptr', 'shared') else n.new('default', 'DEFAULT')
                    self.kw['default_value'] = self.default
            kk, h = E.outcome(self.hcls, self.traits(), self.name, **self.kw)
        else:
            self.direction = 1
            self.kw = dict(opts[E.choose(len(opts), 'options')])
            kk, h = E.outcome(self.hcls, self.traits(), **self.kw)
            if kk == 'ok' and forward and self.form == 'ref' and E.choose(2, 'held by address'):
                h.REQUIRES_ASSIGNMENT_CONSTRUCTOR, h.HELD_BY_ADDRESS, h.value, self.held = False, True, '(*retval)', True
        self.made, self.h = kk == 'ok', h
        if kk != 'ok' and not isinstance(h, (base.CodegenErrorBase, NotImplementedError, AssertionError, TypeError)):
            E.prove('a handler is made or refused', False, repr(h))

    def traits(self):
        return ctypeparser.TypeTraits(self.ctype)

    def __repr__(self):
        return '%s; %s' % (hworld.Case.__repr__(self), self.k)

    def call_line(self, ct, void):
        if self.held:
            return '%s *retval;\nretval = &(TARGET());' % ct.replace('&', '').strip()
        return hworld.Case.call_line(self, ct, void)

    def text(self):
        self.body = hworld.Case.text(self)
        return self.k.unit(self.body)

    def known(self):
        return KNOWN

    def spec(self):
        """as the suites have it"""
        kw = dict((o, v) for o, v in self.kw.items() if o not in ('direction', 'default_value'))
        if self.kind == 'param':
            d = self.direction if self.direction != 1 else None
            s = corpus.Fn('F', 'func', 'TARGET', corpus.R('void'), [corpus.P(self.ctype, 'NAME', d, None if self.default is None else self.w.names.text(self.default), **kw)])
        else:
            s = corpus.Fn('F', 'func', 'TARGET', corpus.R(self.ctype, **kw), [])
        s.ns = None
        return s


class FakeMod(object):
    _pyvc_model = True

    def __init__(self, k):
        self.classes, self.registry = [k.spec], k.registry or None


class FakeW(object):
    _pyvc_model = True

    def __init__(self, spec, func, ex, role):
        self.spec, self.func, self.ex, self.role = spec, func, ex, role
