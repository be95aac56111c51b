"""C15 abstract and non-constructible classes: inheritance trees are generated, every class of every tree is
judged by a model of C++ abstractness, and the emitted constructors and every other emitted function are
checked against it on all their paths."""
import itertools
import re
from . import corpus, emitted
from .corpus import Mod, P, R, overload_slots
from .emitted import norm, find, execs, anon

RULE = 'classes of the trees whose abstractness does not depend on whether inheritance is virtual in the C++ sense'
PT = [(), ('int',), ('double', 'int'), ('const int',), ('int const &',)]


class M(object):
    """a method: name, parameter types, constness, kind (pure / virt / plain), visibility, can it be wrapped"""
    def __init__(self, name, types=(), const=False, kind='virt', vis='public', ok=True, template=()):
        self.name, self.types, self.const, self.kind, self.vis, self.ok, self.template = name, types, const, kind, vis, ok, template

    def sig(self):
        return self.name, tuple(norm(t) for t in self.types), self.const, tuple(self.template)


class T(object):
    """a class of a tree"""
    def __init__(self, name, parents, methods, ctors=('public',), cannot=False, sub=True, mem=None, late=False):
        self.name, self.parents, self.methods, self.ctors, self.cannot, self.sub, self.mem = name, parents, methods, ctors, cannot, sub, mem
        self.late = late

    def up(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo += c.parents
        return out

    def implements(self, m):
        return any(x.sig() == m.sig() and x.kind == 'virt' for x in self.methods)

    def paths(self):
        """subobjects: paths from the class to each base"""
        yield (self,)
        for p in self.parents:
            for q in p.paths():
                yield (self,) + q

    def pure(self):
        """unimplemented pure virtual methods, (every base a separate subobject, one shared subobject per base)"""
        sep = set(m.sig() for q in self.paths() for m in q[-1].methods if m.kind == 'pure' and not any(c.implements(m) for c in q[:-1]))
        shared = set(m.sig() for k in self.up() for m in k.methods
                     if m.kind == 'pure' and not any(c is not k and k in c.up() and c.implements(m) for c in self.up()))
        return sep, shared


def script(m, classes, consumers=True):
    """the declarations of the classes; methods declared 'late' come after every class"""
    late = []
    for t in classes:
        # registered names, so that the tree is its own name space
        t.spec = m.cls(t.name, subclassable=t.sub, parents=[p.spec for p in t.parents], mem=t.mem if not t.parents else None)
        m.extra_known.add(t.name)
        for i, v in enumerate(t.ctors):
            ps = [] if i == 0 else [P('int', 'a%d' % j) for j in range(i)]
            if v == 'copy':
                m.ctor(t.spec, copy=True)
            else:
                m.ctor(t.spec, ps, visibility=v)
        if t.cannot:
            m.line('%s.set_cannot_be_constructed(%r)' % (t.spec.var, t.cannot))
        for x in t.methods:
            ps = [P(y if x.ok else 'Unknown%s' % (y.replace('const ', '').replace(' &', '&') or ''), 'a%d' % i) for i, y in enumerate(x.types)]
            r = R('void') if x.ok or x.types else R('Unknown')
            f = corpus.Fn('%s.%s.%d' % (t.name, x.name, len(t.spec.fns)), 'method', x.name, r, ps, cls=t.name, virtual=x.kind != 'plain',
                          pure=x.kind == 'pure', visibility=x.vis, const=x.const, template=list(x.template) or None)
            t.spec.fns.append(f)
            line = f.text(t.spec.var)
            (late if t.late else m.lines).append(line)
            m.extra_known.add(x.name)
    m.lines += late
    if consumers:
        for t in classes:
            n = t.name
            m.func('mk' + n, R(n), [])
            m.func('cr' + n, R('const %s &' % n), [])
            m.func('df' + n, None, [P(n, 'x', default='%s()' % n)])
            m.attr(t.spec, 'at' + n, n)
            h = m.cls('Cb' + n, subclassable=True)
            m.ctor(h)
            m.method(h, 'cb' + n, R('void'), [P(n, 'x'), P('const %s &' % n, 'y')], virtual=True)
    return m


def self_type(p, tvar):
    """decision of the path on 'is self exactly of this type' (None: not asked)"""
    for x, y, eq in p.eqs:
        a, b = x.text.replace(' ', ''), y.text.replace(' ', '')
        for u, v in ((a, b), (b, a)):
            if v.strip('()') == '&' + tvar and re.search(r'Py_TYPE\(.*self.*\)|self.*ob_type', u):
                return eq
    return None


def news(p):
    return [(norm(e.ty).rstrip('*').strip(), e) for e in p.events if e.kind in ('new', 'pnew', 'newarray')]


def failed(p):
    """the path ends in an error of the right kind"""
    if p.end != 'return' or p.ret is None or p.ret.text.strip('() ') != '-1':
        return False
    if not p.err:
        # the exception of an overload that does not accept the arguments is handed to the dispatcher (C09)
        return any(e.name == 'PyErr_Fetch' and any('return_exception' in a for a in e.argtext) for e in p.calls())
    for e in reversed(p.events):
        if e.kind == 'call' and e.name in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone'):
            return 'PyExc_TypeError' in e.argtext[0]
        if e.kind == 'call' and e.name.startswith('PyArg_'):
            return True
    return True


def describe(t):
    def one(c):
        return '%s(%s): %s; constructors %s%s%s' % (
            c.name, ', '.join(p.name for p in c.parents),
            ', '.join('%s %s %s(%s)%s%s' % (x.vis, x.kind, x.name + ('<%s>' % ','.join(x.template) if x.template else ''), ', '.join(x.types), ' const' if x.const else '', '' if x.ok else ' [not wrappable]') for x in c.methods) or '-',
            ', '.join(c.ctors) or 'none', ', declared not constructible' if c.cannot else '', '' if c.sub else ', no subclassing')
    return ' | '.join(one(c) for c in reversed(t.up()))


def shape(t):
    """the tree without its names"""
    up = t.up()
    return str([([up.index(p) for p in c.parents], [(x.kind, x.vis, x.ok, x.const, x.types) for x in c.methods], c.ctors, bool(c.cannot), c.sub) for c in up])


def check(c, g, ws):
    trees = getattr(c.mod, 'trees', None)
    if trees is None:
        return
    types = g.type_rows()
    blocked, abstract, judged, helpers = {}, {}, [], {}
    for t in trees:
        sep, shared = t.pure()
        if bool(sep) != bool(shared):
            c.count('classes not judged: depends on virtual inheritance')
            continue
        judged.append(t)
        if sep:
            abstract[t.name] = t
        if sep or t.cannot:
            blocked[t.name] = t
        tn = '%s.%s' % (c.mod.name, t.name)
        if tn not in types:
            c.fail('no-type', 'class %s has no Python type' % t.name, describe(t))
            continue
        t.tvar, t.rows = types[tn]
        helpers[re.sub(r'_Type$', '', t.tvar) + '__PythonHelper'] = t
    inits = {}
    for t in judged:
        if not hasattr(t, 'tvar'):
            continue
        d = describe(t)
        c.case(('c', shape(t)), d)
        k = 'abstract' if t.name in abstract else 'declared' if t.cannot else 'constructible'
        init = g.slot(t.rows, 'initproc')
        c.count('obligations')
        if not init or init in ('NULL', '0') or g.unit.func(init) is None:
            c.fail('no-tp-init:%s' % k, '%s class %s has no tp_init of its own: its parent\'s is inherited' % (k, t.name), d)
            continue
        c.count('discharged')
        fl = overload_slots(g, init) or [init]
        direct = via = 0
        helper = re.sub(r'_Type$', '', t.tvar) + '__PythonHelper'
        for fn in fl:
            inits[fn] = t
            ex = g.exec(fn)
            f = g.unit.func(fn)
            dn = vn = False
            for p in ex.paths:
                if p.end == 'cut':
                    continue
                eq = self_type(p, t.tvar)
                ns = [n for n, e in news(p)]
                ok = p.end == 'return' and p.ret is not None and p.ret.text.strip('() ') == '0'
                dn = dn or ok and eq is not False and t.name in ns
                vn = vn or ok and eq is False and helper in ns
                c.count('obligations')
                bad = None
                if k != 'constructible' and t.name in ns:
                    bad = 'constructs %s' % t.name
                elif eq is not False and helper in ns:
                    bad = 'constructs the helper class for the class itself'
                elif k != 'constructible' and eq is not False and not failed(p):
                    bad = 'does not fail with TypeError when the class itself is called'
                elif ok and not ns:
                    bad = 'succeeds without constructing anything'
                if bad:
                    c.fail('tp-init:%s:%s' % (k, bad.split(' ')[0]), '%s class %s: its constructor %s %s' % (k, t.name, fn, bad),
                           d + '\npath decisions: %r' % (p.conds,), f)
                else:
                    c.count('discharged')
            direct += bool(dn)
            via += bool(vn)
        public = len(set(i for i, v in enumerate(t.ctors) if v in ('public', 'copy')))
        c.count('obligations')
        if k == 'constructible' and direct != public:
            c.fail('constructors:%s' % ('+'.join(t.ctors)), '%s has %d public constructors but %d of its emitted constructors construct it' % (t.name, public, direct), d, g.unit.func(init))
        else:
            c.count('discharged')
        usable = [v for v in t.ctors if v in ('public', 'copy', 'protected')]
        if k != 'constructible' and t.sub and any(x.kind != 'plain' and x.ok for x in t.methods) and all(x.ok for u in t.up() for x in u.methods):
            c.count('obligations')
            if via != len(usable):
                c.fail('subclass:%s:%s' % (k, '+'.join(t.ctors)), '%s class %s: %d constructors usable by subclasses, %d of the emitted ones construct the helper class'
                       % (k, t.name, len(usable), via), d, g.unit.func(init))
            else:
                c.count('discharged')
        if via:
            # the helper class itself has to be concrete
            names = set(f.name.split('::')[-1] for f in g.unit.funcs if f.name.startswith(helper + '::') or f.cls == helper)
            sep, shared = t.pure()
            c.count('obligations')
            miss = [s[0] for s in sep & shared if s[0] not in names]
            if miss:
                c.fail('helper-abstract', 'the helper class of %s is constructed although it leaves pure virtual methods unimplemented: %s' % (t.name, miss), d)
            else:
                c.count('discharged')
    # nothing else of the module constructs them
    for f in g.unit.funcs:
        if f.body is None:
            continue
        c.count('emitted functions')
        c.count('obligations')
        bad = None
        for op, i in (('new', 0), ('pnew', 1), ('newarray', 0)):
            for n in find(f.body, op):
                ty = norm(n.a[i]).rstrip('*').strip()
                if ty in blocked:
                    bad = ('new', ty)
                elif ty in helpers and inits.get(f.name) is not helpers[ty]:
                    bad = ('helper', ty)
        for n in find(f.body, 'decl'):
            for (ty, name, arr, init) in n.a[0]:
                if norm(ty).replace('const', '').strip() in abstract:
                    bad = ('variable', norm(ty))
        if bad:
            t = blocked.get(bad[1]) or helpers.get(bad[1]) or abstract.get(bad[1])
            c.fail('elsewhere:%s:%s' % (bad[0], anon(re.sub('X[0-9]+[A-Z]*', 'X', f.name))), '%s constructs %s' % (f.name, bad[1]), describe(t) if t else '', f)
        else:
            c.count('discharged')


KINDS = [None, 'pure', 'virt', 'plain', 'other']
uid = itertools.count()


def meths(kind, j=0, **kw):
    if kind is None:
        return []
    if kind == 'other':     # the same name with another signature
        return [M('f', ('int',), kind='virt')]
    return [M('f', (), kind=kind, **kw)]


def chain(kinds, sub, **kw):
    n = next(uid)
    out = []
    for i, k in enumerate(kinds):
        out.append(T('X%d%s' % (n, 'ABCDEFG'[i]), out[-1:], meths(k), sub=sub, **kw))
    return out


SHAPES = {
    'sibling': [(), (), (0, 1)],
    'diamond': [(), (0,), (0,), (1, 2)],
    'second': [(), (), (1,), (0, 2)],
    'long': [(), (0,), (1,), (), (2, 3)],
    'both': [(), (0,), (), (2,), (1, 3)],
    'again': [(), (), (0, 1), (0, 2)],
    'deep': [(), (0,), (1,), (2,), (3,)],
}


def shaped(name, kinds, sub, **kw):
    n = next(uid)
    out = []
    for i, (ps, k) in enumerate(zip(SHAPES[name], kinds)):
        out.append(T('X%d%s' % (n, 'ABCDEFG'[i]), [out[j] for j in ps], meths(k), sub=sub, **kw))
    return out


MEM = [None, None, None, "cppclass.ReferenceCountingMethodsPolicy('ref', 'unref')", "cppclass.FreeFunctionPolicy('freeit')",
       "smart_ptr.BoostSharedPtr('%s')"]


def random_tree(rng):
    n = next(uid)
    shape = rng.choice(list(SHAPES.values()))
    if rng.random() < .4:
        # any graph of up to five classes, bases in any order
        shape = [tuple(rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2, 2, 3])))) for i in range(rng.randint(2, 5))]
    out = []
    unwrappable = rng.random() < .25
    mem = rng.choice(MEM) if all(len(s) < 2 for s in shape) else None
    sub = rng.random() < .6
    late = rng.random() < .3
    for i, ps in enumerate(shape):
        ms, seen = [], set()
        for q in range(rng.choice([0, 1, 1, 2, 3])):
            x = M(rng.choice('fg'), rng.choice(PT[:3]) if rng.random() < .9 else rng.choice(PT), rng.random() < .3, rng.choice(['pure', 'virt', 'virt', 'plain']),
                  rng.choice(['public'] * 5 + ['protected', 'private']), not (unwrappable and rng.random() < .4))
            if x.kind == 'plain' and x.vis != 'public':
                x.vis = 'public'
            if (x.name, x.types, x.const) in seen:
                continue
            seen.add((x.name, x.types, x.const))
            ms.append(x)
        # what is wrappable is a matter of the types: the same everywhere in the tree
        for x in ms:
            for t in out:
                for y in t.methods:
                    if y.sig() == x.sig():
                        x.ok = y.ok
        ctors = rng.choice([('public',)] * 4 + [(), ('protected',), ('private',), ('public', 'public'), ('protected', 'public'), ('public', 'copy'), ('private', 'protected'), ('copy',)])
        out.append(T('X%d%s' % (n, 'ABCDEFG'[i]), [out[j] for j in ps], ms, ctors, rng.choice([False] * 4 + ['not for you']), sub,
                     (mem % ('X%dA' % n) if mem and '%' in mem else mem) if i == 0 else None, late and rng.random() < .5))
    return out


def modules(S):
    trees = []
    for ks in itertools.product(KINDS, repeat=3):
        for sub in (False, True):
            trees.append(chain(ks, sub))
    for ks in itertools.product(KINDS[:4], repeat=3):
        trees.append(shaped('sibling', ks, bool(len(trees) % 2)))
    for nm in ('diamond', 'second', 'again'):
        for i, ks in enumerate(itertools.product([None, 'pure', 'virt'], repeat=4)):
            trees.append(shaped(nm, ks, bool(i % 2)))
    # pure virtual methods that cannot be wrapped, declared before or after the methods of derived classes
    for late in (False, True):
        for k in (None, 'virt', 'pure'):
            for depth in (1, 2):
                ts = chain([None] * (depth + 1), True)
                ts[0].methods = [M('f', ('int',), kind='pure', ok=False)]
                ts[0].late = late
                ts[-1].methods = [M('h', ())] + ([M('f', ('int',), kind=k, ok=False)] if k else [])
                trees.append(ts)
    for ct in [(), ('public',), ('protected',), ('private',), ('public', 'copy'), ('public', 'protected'), ('private', 'public'), ('copy',), ('protected', 'copy')]:
        for cannot in (False, 'because'):
            for sub in (False, True):
                for ks in ((None, None), ('virt', None), ('pure', None), ('pure', 'virt'), ('pure', 'pure')):
                    trees.append(chain(ks, sub, ctors=ct, cannot=cannot))
    for i in range(150 if not S.thorough else 2500):
        trees.append(random_tree(S.rng))
    out = []
    per = 24
    S.rng.shuffle(trees)
    for i in range(0, len(trees), per):
        m = Mod('m', registry=S.rng.choice([None, 'StdMapWrapperRegistry']))
        part = trees[i:i + per]
        consumers = (i // per) % 2 == 0
        if all(x.ok for ts in part for t in ts for x in t.methods) and (i // per) % 4 == 1:
            consumers, m.handler = False, False
        for ts in part:
            script(m, ts, consumers and S.rng.random() < .6)
        m.trees = [t for ts in part for t in ts]
        out.append(m)
    return out


def run(S):
    emitted.sweep(S, [check], modules(S), scripts=False)
