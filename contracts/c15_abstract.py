"""C15 - contracts on the decisions behind abstract and non-constructible classes
(pybindgen/cppmethod.py, pybindgen/cppclass.py).

matches_signature(self, other), any two methods with parameter lists of any length: true iff
  other is a method, and C++ name, template arguments, number and (normalised) type of the
  parameters and constness are the same.
get_construct_name: a class declared not constructible (any non-empty reason) or with pure
  virtual methods raises CodeGenerationError, any other gives its full name.
write_create_instance: asks the creation function once, with the type named, or get_construct_name
  if none is; if that raises nothing is written.
CppConstructor.generate_call, against the contracts above: a class without helper is created as
  itself; one with a helper creates the helper first, and itself only if the constructor is public
  and get_construct_name allows it.
generate of constructors: private ones, and protected ones without a helper class, are skipped.
CppHelperClass.add_virtual_method: see t_helper."""
import z3
from . import task, need
from .ghost import *
from pybindgen import cppmethod, cppclass, utils, settings
from pybindgen.cppmethod import CppMethod, CppDummyMethod, CppConstructor
from pybindgen.cppclass import CppClass, CppHelperClass
from pybindgen.typehandlers.base import CodeGenerationError


class GhostParam(object):
    _pyvc_model = True

    def __init__(self, ctype):
        self.ctype = ctype


def sym_method(E, nm, const):
    m = CppMethod.__new__(CppMethod)
    m.method_name = E.str(nm + '_method_name')
    m.is_const = const
    m.mangled_name = E.str(nm + '_python_name')
    return m


@task('C15', 'matches_signature: same C++ name, template arguments, parameter types and constness - and nothing else')
def t_matches(E):
    a, b = sym_method(E, 'a', E.bool('a_const')), sym_method(E, 'b', E.bool('b_const'))
    na, nb = z3.Int(E.fresh_name('na')), z3.Int(E.fresh_name('nb'))
    E.assume(z3.And(na >= 0, nb >= 0))
    TA, TB = z3.Function(E.fresh_name('type_a'), I, StrSort), z3.Function(E.fresh_name('type_b'), I, StrSort)
    a.parameters = mklist([('s', RecSeg('a', na, lambda e, i: GhostParam(SStr([Atom(TA(i))]))))])
    b.parameters = mklist([('s', RecSeg('b', nb, lambda e, i: GhostParam(SStr([Atom(TB(i))]))))])
    a.template_parameters, b.template_parameters = E.seq_str('a_template'), E.seq_str('b_template')
    same = z3.Function(E.fresh_name('same_up_to'), I, z3.BoolSort())

    def ax(i):
        return [same(z3.IntVal(0)), z3.Implies(i >= 0, same(i + 1) == z3.And(same(i), TA(i) == TB(i)))]
    E.loop_specs.append(LoopSpec(None, [Cand('same', 'bool', same)],
                                 invs=[('the parameters so far are the same', lambda L: same(L.i))], axioms=ax))
    k, r = E.outcome(CppMethod.matches_signature, a, b)
    E.prove('a decision', k == 'ok', r)
    if k != 'ok':
        return
    t = E.interp.truth_expr(r)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    head = z3.And(E.z(a.method_name) == E.z(b.method_name), E.interp.list_expr(a.template_parameters, SeqStr) == E.interp.list_expr(b.template_parameters, SeqStr),
                  na == nb, E.z(a.is_const) == E.z(b.is_const))
    E.prove('methods that match have the same name, template arguments, constness and number of parameters', z3.Implies(t, head))
    E.prove('methods that match have the same parameter types', z3.Implies(t, same(na)))
    # a witness of the difference: the position a false answer is given at
    li = getattr(E, 'loop_index', None)
    wit = z3.BoolVal(False) if li is None else z3.And(li >= 0, li < na, TA(li) != TB(li))
    E.prove('methods that do not match differ in one of these', z3.Implies(z3.Not(t), z3.Or(z3.Not(head), z3.Not(same(na)), wit)))


@task('C15', 'matches_signature: constness given as any truth value, template arguments in any sequence; something else never matches')
def t_matches_kinds(E):
    vals = [False, True, 0, 1, None]
    i, j = E.choose(len(vals), 'a const'), E.choose(len(vals), 'b const')
    a, b = sym_method(E, 'a', vals[i]), sym_method(E, 'b', vals[j])
    a.parameters, b.parameters = [], []
    ta = (), ('X',), ('X', 'Y')
    x, y = ta[E.choose(3, 'ta')], ta[E.choose(3, 'tb')]
    a.template_parameters = list(x) if E.choose(2, 'a list') else x
    b.template_parameters = list(y) if E.choose(2, 'b list') else y
    k, r = E.outcome(CppMethod.matches_signature, a, b)
    want = z3.And(E.z(a.method_name) == E.z(b.method_name), z3.BoolVal(bool(vals[i]) == bool(vals[j]) and x == y))
    t = E.interp.truth_expr(r) if k == 'ok' else False
    E.prove('decided by the truth values', k == 'ok' and want == (z3.BoolVal(t) if isinstance(t, bool) else t), r)
    k, r = E.outcome(CppMethod.matches_signature, a, GhostParam('x'))
    E.prove('not a method', k == 'ok' and E.interp.truth_expr(r) is False, r)


def sym_class(E):
    c = CppClass.__new__(CppClass)
    c.cannot_be_constructed = [E.str('reason', nonempty=True), '', None, False][E.choose(4, 'reason')]
    c.full_name = E.str('full_name')
    c.name = E.str('name')
    return c


@task('C15', 'get_construct_name: refuses exactly the classes declared not constructible or with pure virtual methods')
def t_name(E):
    c = sym_class(E)
    pure = E.bool('pure')
    asked = []
    E.contracts[CppClass.get_have_pure_virtual_methods] = lambda eng, s: asked.append(s) or pure
    k, r = E.outcome(CppClass.get_construct_name, c)
    blocked = z3.Or(z3.BoolVal(bool(c.cannot_be_constructed) if not isinstance(c.cannot_be_constructed, SStr) else True), E.z(pure))
    if k == 'exc':
        E.prove('the error is a CodeGenerationError', isinstance(r, CodeGenerationError), r)
        E.prove('only blocked classes are refused', blocked)
        return
    E.prove('blocked classes are refused', z3.Not(blocked))
    E.prove('the full name', E.eq(r, c.full_name), r)


@task('C15', 'write_create_instance: creates the type named, or the class itself if it may be constructed')
def t_create(E):
    c = sym_class(E)
    allowed = E.choose(2, 'allowed') == 0
    made = []

    def creator(cls, block, lvalue, parameters, name):
        raise NotImplementedError
    E.contracts[creator] = lambda eng, *a: made.append(a)
    E.contracts[CppClass.get_instance_creation_function] = lambda eng, s: creator

    def gcn(eng, s):
        if not allowed:
            raise CodeGenerationError('no')
        return s.full_name
    E.contracts[CppClass.get_construct_name] = gcn
    named = E.opt('name', lambda: E.str('construct_name', nonempty=True))
    b, lv, ps = E.val('block'), E.str('lvalue'), E.str('parameters')
    k, r = E.outcome(CppClass.write_create_instance, c, b, lv, ps, named)
    if named is None and not allowed:
        E.prove('refused', k == 'exc' and isinstance(r, CodeGenerationError), r)
        E.prove('nothing is written', made == [], made)
        return
    E.prove('returns', k == 'ok', r)
    E.prove('created once', len(made) == 1 and len(made[0]) == 5, made)
    if len(made) == 1:
        _, mb, ml, mp, mn = made[0]
        E.prove('with the type and the arguments', E.interp.conj([E.eq(mb, b), E.eq(ml, lv), E.eq(mp, ps), E.eq(mn, c.full_name if named is None else named)]))


class Helper(object):
    _pyvc_model = True

    def __init__(self, name):
        self.name = name


class GhostClass(object):
    """contract model of the class: creation of a named type, or of itself when that is allowed"""
    _pyvc_model = True

    def __init__(self, E, helper, allowed, log):
        self.full_name, self.name, self.pytypestruct = E.str('full_name'), E.str('name'), E.str('pytypestruct')
        self.helper_class, self.allowed, self.log = helper, allowed, log

    def get_construct_name(self):
        if not self.allowed:
            raise CodeGenerationError('cannot be constructed')
        return self.full_name

    def write_create_instance(self, block, lvalue, parameters, construct_type_name=None):
        if construct_type_name is None:
            construct_type_name = self.get_construct_name()
        self.log.append(('create', construct_type_name))

    def write_post_instance_creation_code(self, block, lvalue, parameters, construct_type_name=None):
        pass


class Block(object):
    _pyvc_model = True

    def __init__(self, log):
        self.log = log

    def write_code(self, text):
        self.log.append(('code', text))

    def indent(self, level=4):
        pass

    def unindent(self):
        pass

    def write_cleanup(self):
        pass


@task('C15', 'constructor wrappers create the class itself only if it may be constructed, by a public constructor')
def t_generate_call(E):
    log = []
    allowed = E.choose(2, 'allowed') == 0
    helper = E.opt('helper', lambda: Helper(E.str('helper_name')))
    vis = ['public', 'protected', 'private'][E.choose(3, 'visibility')]
    c = CppConstructor.__new__(CppConstructor)
    g = GhostClass(E, helper, allowed, log)
    c._class, c.visibility, c.throw, c.call_params = g, vis, [], E.seq_str('call_params')
    c.before_call = Block(log)
    E.contracts[CppConstructor.write_reacquire_gil] = lambda eng, *a: None
    for n in ('_declare_previous_object', '_write_register_self'):      # decided by C20
        if hasattr(CppConstructor, n):
            E.contracts[getattr(CppConstructor, n)] = lambda eng, *a: None
    give = [[], [g]][E.choose(2, 'class argument')]
    k, r = E.outcome(CppConstructor.generate_call, c, *give)
    made = [x[1] for x in log if x[0] == 'create']
    if helper is None:
        E.prove('without a helper class: the class itself or an error', (k == 'exc' and isinstance(r, CodeGenerationError) and made == []) if not allowed
                else (k == 'ok' and len(made) == 1 and made[0] is g.full_name), made)
        return
    E.prove('returns', k == 'ok', r)
    E.prove('the helper class is created for subclasses', len(made) > 0 and made[0] is helper.name, made)
    if allowed and vis == 'public':
        E.prove('the class itself otherwise', len(made) == 2 and made[1] is g.full_name, made)
    else:
        E.prove('nothing else is created', len(made) == 1, made)
        last = max([i for i, x in enumerate(log) if x[0] == 'create'] or [0])
        rest = [x[1] for x in log[last:] if x[0] == 'code']
        text = [''.join(p if isinstance(p, str) else '?' for p in (t.pieces if isinstance(t, SStr) else [t])) for t in rest]
        E.prove('TypeError and the failure value otherwise', any('PyErr_SetString(PyExc_TypeError' in t for t in text) and any('return -1' in t for t in text), text)


@task('C15', 'private constructors, and protected ones without a helper class, are skipped')
def t_skipped(E):
    c = CppConstructor.__new__(CppConstructor)
    c.visibility = ['private', 'protected'][E.choose(2, 'visibility')]
    helper = E.opt('helper', lambda: Helper(E.str('helper_name')))
    c._class = GhostClass(E, helper, True, [])
    if c.visibility == 'protected' and helper is not None:
        return
    E.contracts[CppConstructor.generate_body] = lambda eng, *a, **kw: E.prove('not generated', False)
    k, r = E.outcome(CppConstructor.generate, c, E.val('sink'))
    E.prove('skipped', k == 'exc' and isinstance(r, utils.SkipWrapper), r)


@task('C15', 'helper classes: a pure virtual method that cannot be wrapped disables the helper unless a nearer method has its signature')
def t_helper(E):
    """add_virtual_method(method), existing methods arbitrary:
      one of them has the signature of the method -> nothing changes
      cannot be wrapped: pure -> the helper cannot be constructed; otherwise recorded only
      can be wrapped: recorded, and gets a proxy; the helper stays as it was"""
    h = CppHelperClass.__new__(CppHelperClass)
    h.cannot_be_constructed = E.choose(2, 'disabled') == 0
    h.class_ = E.val('class')
    n = z3.Int(E.fresh_name('n'))
    E.assume(n >= 0)
    MT = z3.Function(E.fresh_name('matches'), I, z3.BoolSort())
    before = z3.Function(E.fresh_name('match_before'), I, z3.BoolSort())

    class Existing(object):
        _pyvc_model = True

        def __init__(self, i):
            self.i = i
    h.virtual_methods = mklist([('s', RecSeg('existing', n, lambda e, i: Existing(i)))])
    seg = list_parts(h.virtual_methods)[0][1]
    E.contracts[CppMethod.matches_signature] = lambda eng, s, o: SBool(MT(o.i)) if isinstance(o, Existing) else False

    def ax(i):
        return [z3.Not(before(z3.IntVal(0))), z3.Implies(i >= 0, before(i + 1) == z3.Or(before(i), MT(i)))]
    E.loop_specs.append(LoopSpec(None, [Cand('before', 'bool', before)], invs=[('no match so far', lambda L: z3.Not(before(L.i)))], axioms=ax))
    dummy = E.choose(2, 'wrappable') == 0
    cls = CppDummyMethod if dummy else CppMethod
    m = cls.__new__(cls)
    m.is_virtual, m._class, m.visibility = True, E.val('declaring class'), ['public', 'protected', 'private'][E.choose(3, 'visibility')]
    m.is_pure_virtual = E.choose(2, 'pure') == 0
    proxies, callers = [], []

    class GhostProxy(object):
        _pyvc_model = True

        def __init__(self, x):
            self.x = x
    E.class_models[cppmethod.CppVirtualMethodProxy] = lambda eng, x: GhostProxy(x)
    E.class_models[cppmethod.CppVirtualMethodParentCaller] = lambda eng, x: GhostProxy(x)
    E.contracts[CppHelperClass.add_virtual_proxy] = lambda eng, s, x: proxies.append(x)
    E.contracts[CppHelperClass.add_virtual_parent_caller] = lambda eng, s, x: callers.append(x)
    E.contracts[settings._get_deprecated_virtuals] = lambda eng: E.choose(2, 'deprecated virtuals') == 0
    disabled = h.cannot_be_constructed
    k, r = E.outcome(CppHelperClass.add_virtual_method, h, m)
    E.prove('returns', k == 'ok', r)
    if k != 'ok':
        return
    parts = list_parts(h.virtual_methods)
    new = [v for kk, v in parts if kk == 'e']
    E.prove('the methods it had stay', len(parts) >= 1 and parts[0][1] is seg and len(parts) == 1 + len(new))
    li = getattr(E, 'loop_index', None)
    hit = z3.BoolVal(False) if li is None else z3.And(li >= 0, li < n, MT(li))
    known = z3.Or(before(n), hit)
    pure, dis = m.is_pure_virtual, h.cannot_be_constructed
    if not new and dis == disabled and not proxies and not callers and not (disabled and dummy and pure):
        E.prove('ignored only if a nearer method has its signature', known)
        return
    if not new:
        E.prove('disabled only by a pure virtual method that cannot be wrapped', dummy and pure and dis is True)
        E.prove('nothing else happens', not proxies and not callers)
        if not disabled:
            E.prove('disabled only if no nearer method has its signature', z3.Not(before(n)))
        return
    if new:
        E.prove('a method is recorded once, itself', len(new) == 1 and new[0] is m, new)
        E.prove('recorded only if no nearer method has its signature', z3.Not(before(n)))
        E.prove('a pure virtual method that cannot be wrapped is not recorded as implemented', not (dummy and pure))
        E.prove('the helper stays as it was', dis == disabled)
        E.prove('exactly the methods that can be wrapped get a proxy', (len(proxies) == 1 and proxies[0].x is m) if not dummy else not proxies, proxies)
        E.prove('no parent caller without an implementation to call', not callers or (not dummy and not pure))
