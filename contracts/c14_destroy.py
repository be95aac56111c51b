"""C14, C20 - destruction of wrappers (CppClass._generate_gc_methods, _generate_destructor, get_delete_code of the memory
policies): for arbitrary names, a class of every kind: exactly what is owned is freed, once, and the wrapper is recorded for
its object no longer."""
from . import task
from .cworld import *
from suites import c14, c20, own

OPTIONS = [{}, dict(is_singleton=True), dict(destructor_visibility='private'), dict(destructor_visibility='protected')]


def destroy(E, policy, judge):
    w = wrap.World(E)
    opts = OPTIONS[E.choose(len(OPTIONS), 'options')]
    variant = ['copyable', 'subclassable', 'helper'][E.choose(3, 'variant')]
    k = Klass(E, w, policy, variant, E.choose(2, 'registry') == 1, **opts)
    c = k.cls
    if not c.allow_subclassing and variant != 'copyable':
        return
    sink = w.sink()
    cons = E.choose(2, 'constructor') == 1
    if c.allow_subclassing:
        kk, r = E.outcome(CppClass._generate_gc_methods, c, sink)
        E.prove('generated', kk == 'ok', r)
    kk, r = E.outcome(CppClass._generate_destructor, c, sink, cons)
    E.prove('generated', kk == 'ok', r)
    if kk != 'ok':
        return
    E.prove('a destructor', 'tp_dealloc' in c.slots, c.slots)
    slot = lambda s: w.names.text(c.slots[s]) if s in c.slots else None
    text = k.unit(sink.ctext())
    g = G(text, KNOWN)
    dn, cn = slot('tp_dealloc'), slot('tp_clear')
    for n in (dn, cn):
        if n:
            ex = g.exec(n)
            E.prove('the emitted code has no error of its own', not ex.problems, '%r %s' % (k, [str(p) for p in ex.problems[:3]]))
            judge(E, k, g, n, cn, n == dn)


def c14judge(E, k, g, n, cn, dealloc):
    f = Failures()
    c14.dispose(f, g, k.spec, k.kind, g.unit.func(n), cn if dealloc else None, dealloc)
    E.prove('what is owned is freed, once, and nothing else', not f.bad, '%r: %s' % (k, f.bad[:2]))
    E.prove('some path', f.n.get('obligations', 0) > 0)


def c20judge(E, k, g, n, cn, dealloc):
    if not k.registry:
        E.prove('nothing is recorded without a registry', not k.maps and 'wrapper_registry' not in g.text, g.text)
        return
    f = Failures()
    c20.destroy(f, type('Gm', (), {'mod': None}), g.unit.func(n), g.exec(n), k.maps, k.structs20(), k.spec, dealloc, {CLS: cn}, {}, k.ks())
    E.prove('the wrapper is recorded no longer', not f.bad, '%r: %s' % (k, f.bad[:2]))
    E.prove('some path', f.n.get('obligations', 0) > 0)


for _p in POLICIES:
    def _f(E, p=_p):
        destroy(E, p, c14judge)
    task('C14', 'tp_dealloc and tp_clear free exactly what is owned - %s' % _p)(_f)

    def _f(E, p=_p):
        destroy(E, p, c20judge)
    task('C20', 'tp_dealloc and tp_clear remove the record of the wrapper - %s' % _p)(_f)
