"""C17 module and method tables: obligations on every emitted table row and on the success path of every
module initialisation function.

The generic part (tables) is checked on the whole corpus and on the repository's own scripts; the
declaration part (one entry per name, in the scope of its declaration) on generated trees of namespaces."""
import re
from . import emitted, grid, corpus
from .corpus import Mod, P, R, I, O, IO
from .emitted import find, norm, show

RULE = 'method tables, and modules with nested namespaces'

FLAGS = {frozenset(['METH_KEYWORDS', 'METH_VARARGS']): 3, frozenset(['METH_VARARGS']): 2, frozenset(['METH_NOARGS']): 1}


def flags_of(e):
    """the flags of a row as a set, or None if it is not an or of names"""
    t = show(e).replace('(', ' ').replace(')', ' ')
    fs = [x.strip() for x in t.split('|')]
    if not all(re.match(r'^METH_\w+$', x) for x in fs) or len(set(fs)) != len(fs):
        return None
    return frozenset(fs)


def cfun(e):
    return re.sub(r'^\(.*?\)\s*', '', show(e)).strip()


def cstr(e):
    m = re.search(r'"((?:[^"\\]|\\.)*)"\s*$', show(e))
    return m.group(1) if m else None


def null_row(r):
    return [show(x) for x in r] in (['NULL', 'NULL', '0', 'NULL'], ['NULL', 'NULL', 'NULL', 'NULL', 'NULL'])


def reads(f, g, name):
    """is the parameter used in the body"""
    used = [False]

    def see(n):
        if n.op in ('id', 'name') and n.a and n.a[0] == name:
            used[0] = True
    emitted.walk(f.body(g.unit.types), see)
    return used[0]


def ob(c, cond, key, what, detail='', code=None):
    c.count('obligations')
    if cond:
        c.count('discharged')
    else:
        c.fail(key, what, detail, code)
    return cond


def tables(c, g, ws):
    users = {}
    for tn, rows in sorted(g.tables.items()):
        kind = 'functions' if tn.endswith('_functions') else 'methods'
        c.count('method tables')
        ob(c, bool(rows) and null_row(rows[-1]) and not any(null_row(r) or show(r[0]) == 'NULL' for r in rows[:-1]),
           'sentinel:%s' % kind, 'table %s does not end with its only null entry' % tn, str([[show(x) for x in r] for r in rows]))
        seen = []
        for r in rows:
            if not r or show(r[0]) == 'NULL':
                continue
            nm = cstr(r[0])
            if not ob(c, len(r) == 4 and nm is not None, 'row:%s' % kind, 'row of %s is not {name, function, flags, doc}: %s' % (tn, [show(x) for x in r])):
                continue
            ob(c, nm not in seen, 'twice:%s' % (getattr(c.mod, 'twice', {}).get(nm) or kind), '%s lists %r twice' % (tn, nm), '')
            seen.append(nm)
            fn = cfun(r[1])
            defs = [f for f in g.unit.funcs if f.name == fn]
            if not ob(c, len(defs) == 1, 'defined:%s' % (getattr(c.mod, 'collide', None) or kind), '%s entry %r names %s, which is defined %d times' % (tn, nm, fn, len(defs)), ''):
                continue
            f = defs[0]
            fl = flags_of(r[2])
            base = fl - frozenset(['METH_STATIC']) if fl else None
            if not ob(c, base in FLAGS, 'flags:%s' % kind, '%s entry %r has flags %s' % (tn, nm, show(r[2])), '', f):
                continue
            passed = FLAGS[base]
            c.case((passed, len(f.params), kind, tuple(sorted(fl)), tuple(norm(p[0]) for p in f.params[1:])), None)
            ps = f.params
            if passed == 3:
                ok = len(ps) == 3
            else:
                n = 2 if passed == 2 else 1
                extra = [p for p in ps[n:] if p[1] and reads(f, g, p[1])]
                ok = not extra
            ob(c, ok, 'convention:%s' % kind, '%s entry %r has flags %s but %s takes (%s)' % (tn, nm, show(r[2]), fn, ', '.join('%s %s' % p[:2] for p in ps)), '', f)
            # what is parsed are the objects the calling convention passes, in their order
            ex = g.exec(fn)
            for p in ex.paths if ex else []:
                for e in p.events:
                    if e.kind == 'call' and e.name in ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords') and len(ps) >= 2:
                        want = [ps[1][1]] + ([ps[2][1]] if e.name.endswith('Keywords') and len(ps) > 2 else [])
                        got = [re.sub(r'^(\([\w ]+\**\)\s*)+', '', x) for x in e.argtext[:2 if e.name.endswith('Keywords') else 1]]
                        got = [x.strip('() ') for x in got]
                        ob(c, got == want or f.name != fn, 'parsed:%s' % kind, '%s parses %s, called with %s' % (fn, got, want), '', f)
            ret = norm(f.ret or '').replace('static', '').strip()
            ob(c, ret.replace(' ', '') == 'PyObject*', 'returns:%s' % kind, '%s entry %r: the function returns %s' % (tn, nm, ret), '', f)
    # every table is used, once
    for v, rows in g.types.items():
        for x in rows:
            m = re.match(r'\(\s*(?:struct\s+)?PyMethodDef\s*\*\s*\)\s*(\w+)$', x)
            if m and m.group(1) not in ('NULL', '0'):
                users.setdefault(m.group(1), []).append(v)
    for v in g.unit.vars:
        if 'PyModuleDef' in norm(v.type) and v.init is not None and v.init.op == 'init':
            fields = [show(x) for x in v.init.a[0]]
            if ob(c, len(fields) == 5, 'moduledef', 'module definition %s has %d fields' % (v.name, len(fields)), str(fields)):
                users.setdefault(fields[4], []).append(v.name)
    for tn in sorted(set(users) | set(g.tables)):
        ob(c, tn in g.tables, 'undefined-table', 'table %s used by %s is not defined' % (tn, users.get(tn)))
        ob(c, len(users.get(tn, [])) == 1, 'table-users', 'table %s is used by %s' % (tn, users.get(tn, [])))


# ---------------------------------------------------------------- declarations

class Scope(object):
    """what was declared in one module"""
    def __init__(self, path, cpp, var):
        self.path, self.cpp, self.var = path, cpp, var
        self.funcs = []       # (python name, C++ target, keyword names, wrappable)
        self.classes = []     # ClassDecl
        self.enums = []       # (python name, C expression)
        self.excs = []        # python name
        self.containers = []
        self.typedefs = []    # (alias, class)
        self.subs = []
        self.used = set()


class ClassDecl(object):
    def __init__(self, py, cpp, outer=None):
        self.py, self.cpp, self.outer = py, cpp, outer
        self.methods, self.enums, self.inner, self.excs, self.used = [], [], [], [], set(['__copy__'])
        self.copy = False
        self.parents = []
        self.ctors = False
        self.tp = None


class TreeMod(Mod):
    def __init__(self):
        Mod.__init__(self)
        self.root = Scope(['m'], [], 'mod')
        self.twice, self.collide = {}, None
        self.ctypes_used = set()

    def scopes(self, s=None):
        s = s or self.root
        yield s
        for x in s.subs:
            for y in self.scopes(x):
                yield y


def qual(s, name):
    return '::'.join(s.cpp + [name])


TYPES = ['int', 'double', 'bool', 'char', 'std::string', 'uint8_t', 'float']
NAMES = ['f', 'g', 'run', 'get', 'Value', 'close', 'm_x', 'test']
NSNAMES = ['n1', 'n2', 'sub', 'impl']
CLSN = ['Aa', 'Bb', 'Cc', 'Dd']


def sig(rng, n):
    ps = []
    for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
        ps.append(P(rng.choice(TYPES), 'p%d_%d' % (n, i)))
    return ps


def fill_functions(rng, m, s, odds):
    for nm in rng.sample(NAMES, rng.choice([0, 1, 2, 3])):
        custom = 'py_' + nm if rng.random() < .25 else None
        tmpl = ['int'] if custom is None and rng.random() < .15 else None
        if s is m.root and nm.startswith('m_'):
            key = custom or nm[2:]
        else:
            key = custom or nm
        if tmpl:
            key += '__lt__int__gt__'
        if key in s.used:
            continue
        s.used.add(key)
        for k in range(rng.choice([1, 1, 2, 3])):
            n = grid.uid()
            ps = sig(rng, n)
            bad = rng.random() < odds
            if bad:
                ps.insert(rng.randrange(len(ps) + 1), P('Unknown', 'p%d_u' % n))
            m.line('%s.add_function(%r, %s, [%s]%s%s)' % (
                s.var, nm, R(rng.choice(['void'] + TYPES)).text(), ', '.join(p.text() for p in ps),
                ', custom_name=%r' % custom if custom else '', ', template_parameters=%r' % tmpl if tmpl else ''))
            s.funcs.append((key, qual(s, nm), [p.name for p in ps], not bad))
        m.extra_known.add(nm)


def fill_classes(rng, m, s, made, odds):
    for nm in rng.sample(CLSN, rng.choice([0, 1, 1, 2])):
        if nm in s.used:
            continue
        s.used.add(nm)
        py = 'Py' + nm if rng.random() < .25 else None
        add_class(rng, m, s, made, odds, nm, py, s.var, None)


def add_class(rng, m, s, made, odds, nm, py, owner, outer):
    n = grid.uid()
    var = 'c%d' % n
    cpp = outer.cpp + '::' + nm if outer else qual(s, nm)
    d = ClassDecl(py or nm, cpp, outer)
    d.var = var
    cands = [x for x in made if x.sub]
    parents = rng.sample(cands, min(len(cands), rng.choice([0, 0, 0, 1, 2]))) if not outer else []
    # a class and its own ancestor cannot both be bases
    if len(parents) == 2 and (parents[0].anc & parents[1].anc):
        parents = parents[:1]
    d.anc = set([d]).union(*[p.anc for p in parents])
    d.parents = parents
    d.sub = rng.random() < .5 and not outer
    opts = []
    if parents:
        opts.append('parent=%s' % (parents[0].var if len(parents) == 1 else '[%s]' % ', '.join(p.var for p in parents)))
    if d.sub or any(p.sub for p in parents):
        opts.append('allow_subclassing=True')
    if py:
        opts.append('custom_name=%r' % py)
    opts.append('automatic_type_narrowing=False')
    if outer:
        opts.append('outer_class=%s' % outer.var)
        owner = s.var
    m.line('%s = %s.add_class(%r%s)' % (var, owner, nm, ''.join(', ' + o for o in opts)))
    (outer.inner if outer else s.classes).append(d)
    made.append(d)
    m.extra_known.update([nm])
    if rng.random() < .7:
        m.line('%s.add_constructor([])' % var)
        d.ctors = True
    if rng.random() < .4:
        m.line('%s.add_copy_constructor()' % var)
        d.copy = True
    for k in rng.sample(NAMES, rng.choice([0, 1, 2, 3])):
        custom = 'py_' + k if rng.random() < .25 else None
        tmpl = ['double'] if custom is None and rng.random() < .15 else None
        key = (custom or k) + ('__lt__double__gt__' if tmpl else '')
        static = rng.random() < .25
        for j in range(rng.choice([1, 1, 2, 3])):
            n = grid.uid()
            ps = sig(rng, n)
            bad = rng.random() < odds
            if bad:
                ps.insert(rng.randrange(len(ps) + 1), P('Unknown', 'p%d_u' % n))
            m.line('%s.add_method(%r, %s, [%s]%s%s%s)' % (
                var, k, R(rng.choice(['void'] + TYPES)).text(), ', '.join(p.text() for p in ps), ', is_static=True' if static else '',
                ', custom_name=%r' % custom if custom else '', ', template_parameters=%r' % tmpl if tmpl else ''))
            d.methods.append((key, cpp + '::' + k if static else k, [p.name for p in ps], not bad, static))
        m.extra_known.add(k)
    if rng.random() < .3:
        m.line("%s.add_method('operator()', retval('int'), [param('int', 'x')], custom_name='__call__')" % var)
        m.line("%s.add_method('len%d', retval('int'), [], custom_name='__len__')" % (var, n))
    if rng.random() < .3:
        vs = ['N%d_%d' % (grid.uid(), i) for i in range(rng.choice([1, 2]))]
        if rng.random() < .3:
            d.enums.append(('T%d' % n, '%s + 0' % n))
            vals = vs + [d.enums[-1]]
        else:
            vals = list(vs)
        m.line('%s.add_enum(%r, %r)' % (var, 'E%d' % grid.uid(), vals))
        d.enums += [(v, cpp + '::' + v) for v in vs]
        m.extra_known.update(vs)
    if not outer and rng.random() < .3:
        nm = rng.choice(CLSN) + 'In'
        add_class(rng, m, s, made, odds, nm, 'Py' + nm if rng.random() < .4 else None, None, d)
    if not outer and rng.random() < .3:
        n = grid.uid()
        py = 'PyXi%d' % n if rng.random() < .5 else None
        m.line('%s.add_exception(%r, outer_class=%s%s)' % (s.var, 'Xi%d' % n, var, ', custom_name=%r' % py if py else ''))
        d.excs.append(py or 'Xi%d' % n)
        m.extra_known.add('Xi%d' % n)
    return d


def fill_rest(rng, m, s, made):
    if rng.random() < .6:
        for k in range(rng.choice([1, 2])):
            n = grid.uid()
            vs = ['V%d_%d' % (n, i) for i in range(rng.choice([1, 2, 3]))]
            if rng.random() < .3:
                m.line('%s.add_enum(%r, %r, values_prefix=%r)' % (s.var, 'E%d' % n, vs, 'PP_'))
                s.enums += [(v, qual(s, 'PP_' + v)) for v in vs]
                m.extra_known.update('PP_' + v for v in vs)
            elif rng.random() < .3:
                m.line('%s.add_enum(%r, %r)' % (s.var, '' if rng.random() < .5 else 'E%d' % n, [(v, 'other(%d)' % i) for i, v in enumerate(vs)]))
                s.enums += [(v, 'other(%d)' % i) for i, v in enumerate(vs)]
                m.extra_known.add('other')
            else:
                m.line('%s.add_enum(%r, %r)' % (s.var, 'E%d' % n, vs))
                s.enums += [(v, qual(s, v)) for v in vs]
                m.extra_known.update(vs)
    if rng.random() < .5:
        last = None
        for k in range(rng.choice([1, 2])):
            n = grid.uid()
            py = 'PyX%d' % n if rng.random() < .3 else None
            std = rng.random() < .2
            m.line('x%d = %s.add_exception(%r%s%s%s)' % (n, s.var, 'X%d' % n if not std else 'ValueError', ', custom_name=%r' % py if py and not std else '',
                                                         ', is_standard_error=True' if std else '',
                                                         ', parent=%s' % last if last and not std and rng.random() < .5 else ''))
            if not std:
                s.excs.append((py or 'X%d' % n))
                last = 'x%d' % n
            m.extra_known.update(['X%d' % n, 'ValueError'])
            if std:
                break
    if rng.random() < .3:
        n = grid.uid()
        py = 'Cont%d' % n
        et = [t for t in ('unsigned int', 'short', 'unsigned short', 'float') if t not in m.ctypes_used]
        if not et:
            return
        m.ctypes_used.add(et[0])
        m.line('%s.add_container(%r, %r, %r, custom_name=%r)' % (s.var, 'std::vector< %s >' % et[0], et[0], 'vector', py))
        s.containers.append(py)
    mine = [x for x in s.classes]
    if mine and rng.random() < .3:
        d = rng.choice(mine)
        n = grid.uid()
        m.line('%s.add_typedef(%s, %r)' % (s.var, d.var, 'Alias%d' % n))
        s.typedefs.append(('Alias%d' % n, d))


def tree(rng, odds=.15):
    m = TreeMod()
    m.lines = [x for x in m.lines if 'h.h' not in x]
    made = []

    def scope(s, depth):
        fill_functions(rng, m, s, odds)
        fill_classes(rng, m, s, made, odds)
        fill_rest(rng, m, s, made)
        if depth < 3:
            for nm in rng.sample(NSNAMES, rng.choice([0, 1, 2]) if depth else 2):
                var = '%s_%s' % (s.var, nm)
                m.line('%s = %s.add_cpp_namespace(%r)' % (var, s.var, nm))
                t = Scope(s.path + [nm], s.cpp + [nm], var)
                s.subs.append(t)
                s.used.add(nm)
                m.extra_known.add(nm)
                scope(t, depth + 1)
                if rng.random() < .3:
                    # asking again gives the same module
                    m.line('%s = %s.add_cpp_namespace(%r)' % (var, s.var, nm))
                    fill_functions(rng, m, t, odds)
        if rng.random() < .4:
            fill_functions(rng, m, s, odds)
    scope(m.root, 0)
    return m


def fixed():
    """single shapes"""
    out = []
    m = TreeMod()
    m.line("mod_ns = mod.add_cpp_namespace('ns')")
    m.line("mod.add_function('ns_f', retval('int'), [param('int', 'p1')])")
    m.line("mod_ns.add_function('f', retval('int'), [param('int', 'p2')])")
    t = Scope(['m', 'ns'], ['ns'], 'mod_ns')
    m.root.subs.append(t)
    m.root.funcs.append(('ns_f', 'ns_f', ['p1'], True))
    t.funcs.append(('f', 'ns::f', ['p2'], True))
    m.extra_known.update(['ns_f', 'f'])
    m.collide = 'function-namespace'
    out.append(m)
    m = TreeMod()
    m.line("c = mod.add_class('Aa', allow_subclassing=True)")
    m.line("c.add_constructor([])")
    m.line("c.add_method('f', retval('int'), [param('int', 'p1')])")
    m.line("c.add_method('f', retval('int'), [param('double', 'p2')], is_virtual=True, visibility='protected')")
    m.twice = {'f': 'public-and-protected-virtual-overloads'}
    m.extra_known.update(['Aa', 'f'])
    m.nodecl = True
    out.append(m)
    return out


def names(rows):
    return [cstr(r[0]) for r in rows if r and show(r[0]) != 'NULL']


def reach(g, fn, target):
    """keyword lists and C++ targets of the overloads behind an entry"""
    slots = corpus.overload_slots(g, fn) or [fn]
    out = []
    for s in slots:
        ex = g.exec(s)
        calls, kws = set(), None
        for p in ex.paths if ex else []:
            for e in p.events:
                if e.kind == 'call' and not e.api:
                    calls.add(re.sub(r'<.*>$', '', e.name).strip().lstrip(':'))
        out.append((corpus.kwlist(g, s), calls))
    return out


def expect_entries(c, g, table, decls, where, member=False):
    """decls: (name, target, keywords, wrappable[, static])"""
    want, order = {}, []
    for d in decls:
        if d[3]:
            if d[0] not in want:
                order.append(d[0])
            want.setdefault(d[0], []).append(d)
    rows = g.tables.get(table)
    if not ob(c, rows is not None, 'table:%s' % ('class' if member else 'module'), '%s has no table %s' % (where, table), ''):
        return
    got = names(rows)
    extra = [x for x in got if x not in want]
    miss = [x for x in order if x not in got]
    ob(c, not miss, 'missing-entry:%s' % ('class' if member else 'module'), '%s: no entry for %s' % (where, miss), 'entries: %s' % got)
    ob(c, not extra, 'extra-entry:%s' % ('class' if member else 'module'), '%s: entries that were not declared: %s' % (where, extra), 'declared: %s' % order)
    for r in rows:
        nm = cstr(r[0]) if r and show(r[0]) != 'NULL' else None
        if nm in want:
            fn = cfun(r[1])
            f = g.unit.func(fn)
            if f is None:
                continue
            c.case((where, nm, len(want[nm])), '%s.%s' % (where, nm))
            got1 = reach(g, fn, None)
            exp = [(d[2] or None, d[1]) for d in want[nm]]
            ok = len(got1) == len(exp) and all((a or None) == (x or None) and any(t == y or member and t.split('::')[-1] == y.split('::')[-1] for t in b)
                                               for (a, b), (x, y) in zip(got1, exp))
            ob(c, ok, 'overloads:%s' % ('class' if member else 'module'),
               '%s: entry %r leads to %s, declared %s' % (where, nm, [(a, sorted(b)) for a, b in got1], exp), '', f)
            if member:
                fl = flags_of(r[2]) or frozenset()
                allst = all(d[4] for d in want[nm])
                ob(c, ('METH_STATIC' in fl) == allst, 'static-flag', '%s: entry %r has flags %s; static: %s' % (where, nm, show(r[2]), allst), '', f)


def uncast(s):
    return re.sub(r'^(\(\s*[\w ]+\*+\s*\)\s*)+', '', s.strip()).strip()


def declared(c, g, ws):
    m = c.mod
    if not isinstance(m, TreeMod) or getattr(m, 'nodecl', False):
        return
    if m.collide:
        return
    types = g.type_rows()
    inits = {}
    for s in m.scopes():
        pre = '_'.join(s.path)
        where = '.'.join(s.path)
        expect_entries(c, g, pre + '_functions', s.funcs, where)
        for d in all_classes(s):
            tp = where + '.' + d.py if d.outer is None else d.outer.tp + '.' + d.py
            d.tp = tp
            if not ob(c, tp in types, 'class-missing', 'no type named %s' % tp, 'types: %s' % sorted(types)):
                continue
            d.tvar, rows = types[tp]
            tb = g.slot(rows, 'struct PyMethodDef*') or g.slot(rows, 'PyMethodDef*')
            if not ob(c, bool(tb) and tb in g.tables, 'class-table', 'type %s has no method table (%s)' % (tp, tb)):
                continue
            rows2 = g.tables[tb]
            ob(c, ('__copy__' in names(rows2)) == d.copy, 'copy-entry', '%s: __copy__ entry %s, copy constructor declared: %s' % (tp, '__copy__' in names(rows2), d.copy))
            g.tables[tb + '#'] = [r for r in rows2 if not (r and '"__copy__"' in show(r[0]))]
            if len(d.parents) > 1:
                # the methods of the parents are repeated in a class with several, unless more than one has the name
                own = set(x[0] for x in d.methods if x[3])
                anc = {}
                for p in d.anc - set([d]):
                    for x in p.methods:
                        if x[3]:
                            anc.setdefault(x[0], set()).add(p)
                got = names(g.tables[tb + '#'])
                must = own | set(n for n in anc if len(anc[n]) == 1 and n not in set(x[0] for x in d.methods))
                ob(c, must <= set(got) <= own | set(anc), 'mi-entries', '%s: entries %s, expected %s' % (tp, sorted(got), sorted(must)))
            else:
                expect_entries(c, g, tb + '#', d.methods, tp, member=True)
            del g.tables[tb + '#']
    for s in m.scopes():
        init(c, g, m, s, types)


def all_classes(s):
    for d in s.classes:
        yield d
        for i in d.inner:
            yield i


def init(c, g, m, s, types):
    where = '.'.join(s.path)
    pre = '_'.join(s.path)
    fn = 'PyInit_m' if len(s.path) == 1 else 'init' + pre
    f = g.unit.func(fn)
    if not ob(c, f is not None, 'no-init', 'module %s has no initialisation function %s' % (where, fn)):
        return
    md = [v for v in g.unit.vars if v.name == pre + '_moduledef']
    if ob(c, len(md) == 1, 'no-moduledef', '%s: %d module definitions' % (where, len(md))):
        fields = [show(x) for x in md[0].init.a[0]]
        ob(c, fields[1] == '"%s"' % where and fields[4] == pre + '_functions', 'moduledef-fields', '%s: module definition %s' % (where, fields), '', f)
    ex = g.exec(fn)
    full = [p for p in ex.paths if p.end == 'return' and not any(x[1] is True and ('== NULL' in x[0] or x[0].startswith('PyType_Ready')) for x in p.conds)]
    p = max(ex.paths, key=lambda q: len(q.events))
    want = {}

    def add(k, v):
        want.setdefault(k, []).append(v)
    for d in s.classes:
        if hasattr(d, 'tvar'):
            add(('obj', d.py), '&' + d.tvar)
        for i in d.inner:
            if hasattr(i, 'tvar') and hasattr(d, 'tvar'):
                add(('dict', d.tvar, i.py), '&' + i.tvar)
        for i in [d] + d.inner:
            for (n, e) in i.enums:
                if hasattr(i, 'tvar'):
                    add(('dict', i.tvar, n), 'PyLong_FromLong(%s)' % e)
        for n in d.excs:
            if hasattr(d, 'tvar'):
                add(('dict', d.tvar, n), 'PyErr_NewException((char*) "%s.%s.%s"' % (where, d.py, n))
    for (n, e) in s.enums:
        add(('int', n), e)
    for n in s.excs:
        add(('obj', n), 'PyErr_NewException((char*) "%s.%s"' % (where, n))
    for n in s.containers:
        for x in (n, n + 'Iter'):
            t = types.get(where + '.' + x)
            add(('obj', x), '&' + t[0] if t else '?')
    for (a, d) in s.typedefs:
        if hasattr(d, 'tvar'):
            add(('obj', a), '&' + d.tvar)
    for t in s.subs:
        add(('obj', t.path[-1]), 'init' + '_'.join(t.path))
    got = {}
    ready = []
    module = None
    for e in p.events:
        if e.kind != 'call':
            continue
        if e.name == 'PyModule_Create':
            module = show_call(e)
            ob(c, uncast(e.argtext[0]) == '&%s_moduledef' % pre, 'created', '%s creates %s' % (fn, e.argtext), '', f)
        elif e.name == 'PyType_Ready':
            ready.append(uncast(e.argtext[0]))
        elif e.name in ('PyModule_AddObject', 'PyModule_AddIntConstant'):
            nm = e.argtext[1].strip('"')
            v = uncast(e.argtext[2])
            ob(c, e.argtext[0].startswith('PyModule_Create(&%s_moduledef' % pre), 'added-to', '%s: %r is added to %s' % (fn, nm, e.argtext[0]), '', f)
            got.setdefault(('obj' if e.name == 'PyModule_AddObject' else 'int', nm), []).append(v)
            if v.endswith('_Type') and v.startswith('&'):
                ob(c, v in ready or not any(d.tvar == v[1:] for t in [s] for d in t.classes if hasattr(d, 'tvar')), 'not-ready', '%s: %s is added before PyType_Ready' % (fn, v), '', f)
        elif e.name == 'PyDict_SetItemString':
            mm = re.match(r'&?(\w+?)(?:\.|->)tp_dict$', uncast(e.argtext[0]))
            nm = e.argtext[1].strip('"')
            v = uncast(e.argtext[2])
            ob(c, mm is not None and '&' + mm.group(1) in ready, 'dict-not-ready', '%s: %r is stored in %s before that type is ready' % (fn, nm, e.argtext[0]), '', f)
            got.setdefault(('dict', mm.group(1) if mm else e.argtext[0], nm), []).append(v)
    for k in sorted(set(want) | set(got), key=str):
        w, h = want.get(k, []), got.get(k, [])
        if k[0] == 'obj' and k[1].startswith('_') and not w:
            continue
        c.case((k[0], where, str(w)), None)
        kind = k[0] + ('' if len(k) < 3 else '-nested')
        if not ob(c, len(h) == len(w) == 1, 'registered:%s:%s' % (kind, 'missing' if len(h) < len(w) else 'extra'), '%s: %s is registered %d times, declared %d times' % (where, k, len(h), len(w)), 'registered: %s' % h, f):
            continue
        a, b = re.sub(r'\s', '', h[0]), re.sub(r'\s', '', w[0])
        ob(c, a == b or b.startswith('PyErr_NewException') and a.startswith(b), 'value:%s' % kind, '%s: %s is registered as %s, expected %s' % (where, k, h[0], w[0]), '', f)


def show_call(e):
    return e.name


def modules(rng, thorough):
    out = fixed()
    for i in range(24 if not thorough else 160):
        out.append(tree(rng, odds=rng.choice([0, .15, .35])))
    return out


def run(S):
    own = modules(S.rng, S.thorough)
    emitted.sweep(S, [tables, declared], own + grid.all_modules(S.rng, S.thorough))
