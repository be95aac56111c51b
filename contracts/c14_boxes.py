"""C14, C09, C11 - every handler of a container, alone, in the frame of the wrappers and overrides, for any names: each
container made on the way has one owner at the end - the wrapper that Python gets, or the callee that it is handed to; units
and variables agree, no reference is taken from NULL.  Destruction, construction and iteration: one delete of what is held."""
from . import task
from .cboxes import *
from suites import own, c14
from suites.c14 import kept
from suites.own import Ledger, key, null


def case(E, kind, forward):
    c = BoxCase(E, kind, forward)
    if not c.made or not c.convert():
        return None
    c.evaluate()
    return c


def ownership(E, kind, forward):
    c = case(E, kind, forward)
    if c is None:
        return
    done = 0
    for p in c.ex.paths:
        tg = [e for e in p.calls() if e.name == 'TARGET']
        def source(e, led, tg=tg, p=p):
            if e in tg and c.kw.get('transfer_ownership') and c.direction & 1:
                led.add(key(e.args[0]), -1, 'handed over')
        led = Ledger(p, [], {}).run(source)
        ok = p.end in ('return', 'fall') and not any(e.kind == 'throw' for e in p.events) and not p.err
        nz = led.nonzero() if ok else led.negative()
        E.prove('one owner for every container', not nz and not (ok and led.bad), '%r: %r %r\n%s' % (c, nz or led.bad, led.log, c.body))
        done += ok
        if ok:
            E.prove('and every wrapper that is made is handed on', not kept(p), '%r: %r\n%s' % (c, kept(p), c.body))
    E.prove('some path', done > 0, c.body)


def problems(name, kinds):
    def f(E, kind, forward):
        c = case(E, kind, forward)
        if c is None:
            return
        bad = [str(p) for p in c.ex.problems if p.kind in kinds]
        E.prove(name, not bad, '%r: %s\n%s' % (c, bad[:2], c.body))
    return f


POSITIONS = [('parameters of wrappers', 'param', True), ('parameters of overrides', 'param', False), ('results of wrappers', 'return', True), ('results of overrides', 'return', False)]
for _pid, _t, _j in [('C14', 'one owner for each container', ownership), ('C11', 'units and variables agree', problems('units and variables agree', ('format', 'undeclared'))),
                     ('C09', 'no reference is taken from NULL', problems('no reference is taken from NULL', ('null', 'refs')))]:
    for _n, _k, _f in POSITIONS:
        def _g(E, j=_j, k=_k, f=_f):
            j(E, k, f)
        task(_pid, '%s of a container: %s' % (_n, _t))(_g)


# ------------------------------------------------------------------ destruction, construction

def deletions(p):
    return [e for e in p.events if e.kind == 'delete' and not null(e.value)]


def field(v):
    return v.origin[2] if v.origin and v.origin[0] == 'field' else None


@task('C14', 'containers and their iterators: destruction deletes what is held, once, and lets go of it')
def t_destroy(E):
    w = wrap.World(E)
    k = Box(E, w)
    s = w.sink()
    for f in (Container._generate_gc_methods, Container._generate_destructor):
        kk, r = E.outcome(f, k.box, s)
        E.prove('generated', kk == 'ok', r)
        if kk != 'ok':
            return
    g = G(k.unit(s.ctext()), KNOWN)
    t = w.names.text
    for slots, member, dealloc in [(k.box.pytype.slots, 'obj', True), (k.box.iter_pytype.slots, 'iterator', True), (k.box.iter_pytype.slots, 'iterator', False)]:
        n = 'tp_dealloc' if dealloc else 'tp_clear'
        E.prove('in its slot', n in slots, slots)
        ex = g.exec(t(slots[n]))
        E.prove('the emitted code has no error of its own', not ex.problems, [str(p) for p in ex.problems[:3]])
        done, had = 0, []
        for p in ex.paths:
            if p.end not in ('return', 'fall'):
                continue
            done += 1
            d = deletions(p)
            E.prove('what is held is deleted, once, and nothing else', len(d) == 1 and field(d[0].value) == member, '%r %s' % ([x.value.text for x in d], g.text))
            me = p.params.get('self')
            now = p.heap.get((me.id, member))
            E.prove('and held no longer', now is not None and null(now), g.text)
            if member == 'iterator':
                c = [v for v in getattr(p, 'refvals', {}).values() if field(v) == 'container' and v.origin[1].id == me.id]
                still = p.heap.get((me.id, 'container'))
                gone = sum(p.refs.get(v.id, 0) for v in c)
                had.append(gone)
                E.prove('the iterator lets go of the container it has, once', still is not None and null(still) and gone in (0, -1), '%r %r %s' % (p.refs, p.conds, g.text))
            free = [e for e in p.calls() if e.name.split('->')[-1].split('.')[-1] == 'tp_free' or 'tp_free' in e.name]
            E.prove('the wrapper is freed by its destructor only, last', len(free) == (1 if dealloc else 0) and (not free or all(free[0].seq > x.seq for x in d)), '%r' % [e.name for e in p.calls()])
        E.prove('some path', done > 0 and (member == 'obj' or -1 in had), '%r %s' % (had, g.text))


@task('C14', 'containers: the constructor leaves a container, or fails and leaves none')
def t_init(E):
    w = wrap.World(E)
    k = Box(E, w, mapping=E.choose(2, 'mapping') == 1)
    k.box.ThisContainerReturn = BoxReturn
    k.value.ctype = w.names.new('item', 'IT1')
    if k.key is not None:
        k.key.ctype = w.names.new('key', 'KT1')
    s = w.sink()
    kk, r = E.outcome(Container._generate_container_constructor, k.box, s)
    E.prove('generated', kk == 'ok', r)
    if kk != 'ok':
        return
    g = G(k.unit(s.ctext()), KNOWN)
    E.prove('in its slot', 'tp_init' in k.box.pytype.slots)
    ex = g.exec(w.names.text(k.box.pytype.slots['tp_init']))
    E.prove('the emitted code has no error of its own', not ex.problems, [str(p) for p in ex.problems[:3]])
    ends = set()
    for p in ex.paths:
        if p.end != 'return':
            continue
        news = [e for e in p.events if e.kind == 'new']
        now = p.heap.get((p.params['self'].id, 'obj'))
        ok = p.ret.text.strip('() ') == '0'
        ends.add(ok)
        if ok:
            E.prove('a new container is held', len(news) == 1 and now is not None and now.id == news[0].value.id and not deletions(p) and not p.err, g.text)
        else:
            E.prove('failure is -1 with an error set', p.ret.text.replace(' ', '').strip('()') == '-1' and bool(p.err), '%s %r' % (p.ret.text, p.err))
            E.prove('nothing is left', [key(e.value) for e in deletions(p)] == [key(e.value) for e in news] and (not news or now is not None and null(now)), g.text)
    E.prove('both outcomes', ends == set([True, False]), ends)


@task('C14', 'iterating a container: the iterator holds it, once, and starts at its beginning')
def t_iter(E):
    w = wrap.World(E)
    k = Box(E, w)
    E.contracts[container.IterNextWrapper.generate] = lambda eng, self, sink: None
    s = w.sink()
    kk, r = E.outcome(Container._generate_iter_methods, k.box, s)
    E.prove('generated', kk == 'ok', r)
    if kk != 'ok':
        return
    g = G(k.unit(s.ctext()), KNOWN)
    t = w.names.text
    for slots, mine in [(k.box.pytype.slots, True), (k.box.iter_pytype.slots, False)]:
        E.prove('in its slot', 'tp_iter' in slots, slots)
        ex = g.exec(t(slots['tp_iter']))
        bad = [str(p) for p in ex.problems if p.kind != 'null']
        E.prove('the emitted code has no error of its own', not bad, bad[:3])
        done = 0
        for p in ex.paths:
            if p.end != 'return' or null(p.ret):
                continue
            done += 1
            me = p.params['self']
            E.prove('one reference to self', p.refs.get(me.id, 0) == 1, '%r %s' % (p.refs, g.text))
            if not mine:
                E.prove('an iterator iterates itself', p.ret.id == me.id, g.text)
                continue
            made = [v for i, v in p.refvals.items() if own.fresh(v) and p.refs.get(i)]
            E.prove('one iterator is made and returned', len(made) == 1 and key(made[0]) == key(p.ret) and p.refs[made[0].id] == 1, '%r %s' % (made, g.text))
            at, of = p.heap.get((made[0].id, 'iterator')), p.heap.get((made[0].id, 'container'))
            news = [e for e in p.events if e.kind == 'new']
            E.prove('it holds the container', of is not None and of.id == me.id, g.text)
            b = [e for e in p.calls() if e.name.split('->')[-1].split('.')[-1] == 'begin']
            E.prove('and its own iterator, at the beginning', len(news) == 1 and at is not None and at.id == news[0].value.id and len(b) == 1 and field(b[0].base) == 'obj' and b[0].base.origin[1].id == me.id
                    and news[0].args[0].id == b[0].result.id, '%r %s' % ([e.name for e in b], g.text))
        E.prove('some path', done > 0)
