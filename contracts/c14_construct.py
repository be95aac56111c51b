"""C14, C20 - constructors (CppConstructor.generate with the object creation functions) and copies (CppClass._generate_copy_method):
for arbitrary names, any parameters, a class of every memory policy: the wrapper ends up with a new object of which it is
the owner, recorded as its wrapper and no longer as that of what it had; a failure leaves no object behind."""
from . import task
from .cworld import *
from . import c13_catch
from suites import c14, c20, own
from pybindgen.cppmethod import CppConstructor


def make(E, policy):
    w = c13_catch.world(E)
    w.taken = False
    w.kind = 0
    variant = ['copyable', 'subclassable', 'helper'][E.choose(3, 'variant')]
    k = Klass(E, w, policy, variant, E.choose(2, 'registry') == 1)
    if variant == 'helper' and E.choose(2, 'pure'):
        k.cls._have_pure_virtual_methods = True
        k.cls._cannot_be_constructed = 'pure'
    return w, k


def constructed(E, policy, judge):
    w, k = make(E, policy)
    f = c13_catch.base(E, CppConstructor, w, None, bool(E.choose(2, 'unblock')), 'return -1;')
    f._class = k.cls
    f.visibility = ['public', 'protected'][E.choose(2, 'visibility')] if k.cls.helper_class is not None else 'public'
    f.wrapper_base_name = 'F'
    f.throw = c13_catch.exceptions(E, w, E.choose(2, 'exceptions'), 1)
    s = w.sink()
    kk, r = E.outcome(CppConstructor.generate, f, s)
    E.prove('generated', kk == 'ok', r)
    if kk != 'ok':
        return
    spec = corpus.Fn('%s.ctor0' % CLS, 'ctor', CLS, None, [], cls=CLS)
    spec.ns, spec.copy = None, False
    spec.visibility = f.visibility
    run(E, w, k, s, spec, 'F', 'ctor', judge)


def copied(E, policy, judge):
    w, k = make(E, policy)
    if k.cls._have_pure_virtual_methods:
        return
    s = w.sink()
    kk, r = E.outcome(CppClass._generate_copy_method, k.cls, s)
    E.prove('generated', kk == 'ok', r)
    if kk == 'ok':
        run(E, w, k, s, None, w.names.text(r), 'copy', judge)


def run(E, w, k, s, spec, name, role, judge):
    text = k.unit(s.ctext()) + '\n'
    ex, u = ctext.run(text, name, known=KNOWN + c13_catch.KNOWN)
    bad = [str(x) for x in ex.problems if x.kind not in ('gil',)]
    E.prove('the emitted code has no error of its own', not bad, '%r %s\n%s' % (k, bad[:3], text))
    done = 0
    for p in ex.paths:
        if p.end == 'cut':
            continue
        done += judge(E, k, p, u.func(name), spec, role, text)
    E.prove('an object is made', done > 0, '%r\n%s' % (k, text))


def ended(p):
    """the wrapper reports success"""
    return c14.success(p) and p.ret.text.strip('() ') not in ('-1', 'NULL')


def c14judge(E, k, p, f, s, role, text):
    r = c14.accounts(p, f, s, 'ctor' if role == 'ctor' else None, False, FakeMod(k), k.ks(), [k.kind], k.structs())
    E.prove('the accounts of every object add up', r is None or r[1] is None, '%r: %r: %r\n%s' % (k, r, p.conds, text))
    if not ended(p):
        return 0
    news = [e for e in p.events if e.kind == 'new' or e.kind == 'call' and re.match(r'(::)?std::make_shared\s*<', e.name)]
    E.prove('one object is made', len(news) == 1, '%r %r %r %s\n%s' % (p.conds, p.ret, p.err, news, text))
    me = p.params['self'] if role == 'ctor' else p.ret
    flag = p.heap.get((me.id, 'flags'))
    if k.kind.kind != 'shared':
        E.prove('its wrapper is the owner', flag is not None and flag.text.strip('() ') == own.NONE, '%r %r\n%s' % (k, flag, text))
    return 1


def c20judge(E, k, p, f, s, role, text):
    if not k.registry:
        E.prove('nothing is recorded without a registry', 'wrapper_registry' not in text, text)
        return ended(p)
    m = c20.Monitor(p, k.maps, k.structs20(), override=False)
    bad = c20.one(m, p, s, role if role == 'ctor' else None, p.params['self'] if role == 'ctor' else None, False, {})
    E.prove('an object has one wrapper, the recorded one', bad is None, '%r: %r: %r\n%s' % (k, bad, p.conds, text))
    return ended(p)


for _p in POLICIES:
    for _pid, _t, _j in [('C14', 'one new object, owned by its wrapper', c14judge), ('C20', 'recorded for the new object, and for it only', c20judge)]:
        def _g(E, p=_p, j=_j):
            constructed(E, p, j)
        task(_pid, 'CppConstructor.generate, any parameters: %s - %s' % (_t, _p))(_g)

        def _g(E, p=_p, j=_j):
            copied(E, p, j)
        task(_pid, '_generate_copy_method: %s - %s' % (_t, _p))(_g)
