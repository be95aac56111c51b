"""C20 identity of wrapped objects: with a wrapper registry, the invariant

    a live wrapper that has an object is the one recorded for the address of that object, and what is recorded is a
    live wrapper that has that object

is kept by every emitted function that creates, looks up, fills, empties or destroys wrappers, on all its paths; an
object that Python has a wrapper of is given to Python as that wrapper.  Without a registry nothing is recorded."""
import re
from . import emitted, grid, own, c14
from .corpus import Mod, P, R, targets, V, I, O, IO
from .emitted import norm, execs, anon
from .own import key, null, fresh, own_wrapper, kind_of
from .c14 import success, looked_up_null, kinds, container

RULE = 'emitted functions that create, look up, fill, empty or destroy wrappers; non-trivial: distinct (role, kind of class, events)'


def ismap(v):
    return v is not None and 'std::map<void*' in norm(v.ty or '').replace(' ', '')


class Monitor(object):
    """the registry operations of one path"""
    def __init__(self, p, maps, structs, override=False):
        self.p, self.maps, self.structs, self.override = p, maps, structs, override
        self.resets = {}        # wrapper id -> number of times its smart pointer was given something else
        self.getkeys = {}       # value of p.get() -> key
        self.ops = []           # (position, 'record', map, key, wrapper) / ('find', map, key, result) / ('erase', map, result)
        self.puts = []          # (position, wrapper, key or None): the object of a wrapper is set
        self.made = {}          # keys of objects made on the path
        self.w = {}
        self.dead = set()
        self.run()

    def wrapper(self, v):
        return v is not None and norm(v.ty or '').rstrip('* ').strip() in self.structs

    def cls(self, w):
        return self.structs.get(norm(w.ty).rstrip('* ').strip())

    def shared(self, w):
        c = self.cls(w)
        return c is not None and c[1].kind == 'shared'

    def okey(self, v):
        """the address a value stands for"""
        if v.id in self.getkeys:
            return self.getkeys[v.id]
        if v.addr is not None and v.addr[0] in ('deref', 'tmp') and v.addr[1].id in self.getkeys:
            return self.getkeys[v.addr[1].id]
        return self.versioned(key(v))

    def versioned(self, k):
        if k[0] == 'init' and self.resets.get(k[1]):
            return k + (self.resets[k[1]],)
        return k

    def obj_field(self, b):
        """the wrapper whose obj member the value is (or the address of)"""
        o = b.origin
        if o and o[0] == 'field' and o[2] == 'obj':
            return o[1]
        a = b.addr
        if a is not None and a[0] == 'field' and a[2] == 'obj':
            return a[1]
        return None

    def run(self):
        for i, e in enumerate(self.p.events):
            if e.kind == 'new':
                self.made[self.okey(e.value)] = e
            elif e.kind == 'assign':
                lv = e.lv
                if lv[0] == 'index' and lv[1].text in self.maps:
                    self.ops.append((i, 'record', lv[1].text, self.okey(lv[3]), e.value))
                elif lv[0] == 'field' and lv[2] == 'obj' and self.wrapper(lv[1]):
                    w = lv[1]
                    if self.override and own_wrapper(w):
                        continue
                    k = None if null(e.value) else self.okey(e.value)
                    o = e.value.origin
                    if k is not None and o and o[0] == 'call' and o[2].name.split('::')[-1].split('<')[0].strip() in ('make_shared', 'allocate_shared'):
                        self.made[k] = e
                    self.put(i, w, k)
            elif e.kind == 'call':
                self.call(i, e)

    def put(self, i, w, k):
        self.w[w.id] = w
        self.puts.append((i, w, k))

    def call(self, i, e):
        last = e.name.split('::')[-1]
        b = getattr(e, 'base', None)
        if not e.api and b is not None and b.text in self.maps:
            if last == 'find':
                self.ops.append((i, 'find', b.text, self.okey(e.args[0]), e.result))
            elif last == 'erase':
                self.ops.append((i, 'erase', b.text, e.args[0]))
            elif last != 'end':
                self.ops.append((i, 'other', b.text, last))
            return
        if e.api:
            if e.name in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR') and e.args and fresh(e.args[0]):
                self.dead.add(e.args[0].id)
            return
        if b is None:
            return
        w = self.obj_field(b)
        lv = getattr(e, 'recvlv', None)
        if w is None and lv is not None and lv[0] == 'field' and lv[2] == 'obj':
            w = lv[1]
        if last == 'get' and e.result is not None:
            self.getkeys[e.result.id] = self.versioned(('init', w.id)) if w is not None and self.resets.get(w.id) else self.okey(b)
        elif last in ('reset',) and w is not None and self.wrapper(w):
            self.resets[w.id] = self.resets.get(w.id, 0) + 1
            k = self.versioned(('init', w.id)) if e.args else None
            if k is not None:
                self.made[k] = e
            self.put(i, w, k)

    # ------------------------------------------------------------ what is known of a lookup
    def hit(self, r):
        """did the lookup find something: True / False / None when the path does not tell"""
        for a, b, eq in self.p.eqs:
            for x, y in ((a, b), (b, a)):
                if x.id == r.id and y.origin and y.origin[0] == 'call' and y.origin[2].name.split('::')[-1] == 'end':
                    return not eq
        return None

    def second(self, r, w):
        """is the found wrapper w: True / False / None"""
        for a, b, eq in self.p.eqs:
            for x, y in ((a, b), (b, a)):
                if x.origin and x.origin[0] == 'field' and x.origin[2] == 'second' and x.origin[1].id == r.id and y.id == w.id:
                    return eq
        return None

    def found(self, r):
        """wrapper values read from the found entry"""
        return lambda v: bool(v.origin) and v.origin[0] == 'field' and v.origin[2] == 'second' and v.origin[1].id == r.id

    def removed(self, k, w, after=-1):
        """k has no record of w any more: looked up, and either not found, found with another wrapper, or erased"""
        for (i, op, *rest) in self.ops:
            if op == 'find' and rest[1] == k and i > after:
                r = rest[2]
                if self.hit(r) is False or self.second(r, w) is False:
                    return True
                if any(o[1] == 'erase' and o[3].id == r.id for o in self.ops):
                    return True
        return False

    def recorded(self, k, w, after):
        """the last thing recorded for k, after w got the object, is w"""
        ok = False
        for (i, op, *rest) in self.ops:
            if op == 'record' and rest[1] == k and i > after:
                ok = rest[2].id == w.id
            elif op == 'erase' and ok:
                f = [o for o in self.ops if o[1] == 'find' and o[4].id == rest[1].id]
                if any(o[3] == k for o in f):
                    ok = False
        return ok


def maps_of(g):
    """registries of the module: variables of the emitted text that map addresses to Python objects"""
    out = set()
    for v in g.unit.vars:
        if re.match(r'(extern\s+)?std::map<void\*,\s*(struct\s+)?_?PyObject\s*\*>', norm(v.type).replace('< ', '<')):
            out.add(v.name)
    return out


def initial(p, w):
    """key of the object the wrapper has when the function starts"""
    return ('init', w.id)


def check(c, g, ws):
    mod = g.mod
    if isinstance(mod, emitted.ScriptMod):
        return
    maps = maps_of(g)
    if mod.registry is None:
        c.count('obligations')
        used = [e for f, st, ex in execs(g) for p in ex.paths for e in p.events if e.kind == 'call' and e.name == 'find' and
                getattr(e, 'base', None) is not None and 'registry' in e.base.text]
        if maps or used or 'std::map<void*' in g.text.replace(' ', ''):
            c.fail('unasked', 'a module without a wrapper registry has one', '%s' % sorted(maps))
            return
        c.count('discharged')
        c.case(('none', getattr(mod, 'own_label', None)), None)
        return
    ks = kinds(mod)
    structs = dict((x.struct, (x, ks[x.full])) for x in mod.classes if hasattr(x, 'struct'))
    linked = dict((id(w.func), w) for w in ws)
    use = {}
    dealloc, clear = {}, {}
    for cls in mod.classes:
        if hasattr(cls, 'rows'):
            for slot, d in (('destructor', dealloc), ('inquiry', clear)):
                n = g.slot(cls.rows, slot)
                if n and n not in ('NULL', '0'):
                    d[n] = cls
    clearers = dict((cls.full, n) for n, cls in clear.items())
    for f, st, ex in execs(g):
        if container(f.name):
            continue
        w = linked.get(id(f))
        s, role = (w.spec, w.role) if w is not None else (None, None)
        if f.name in dealloc or f.name in clear:
            destroy(c, g, f, ex, maps, structs, (dealloc.get(f.name) or clear.get(f.name)), f.name in dealloc, clearers, use, ks)
            continue
        virt = role == 'virtual' or st == 'unheld'
        acted = set()
        bad = None
        for p in ex.paths:
            if looked_up_null(p):
                continue
            m = Monitor(p, maps, structs, override=virt)
            if not m.ops and not m.puts:
                continue
            acted.update(o[1] for o in m.ops)
            acted.update('put' if k is not None else 'take' for _, _, k in m.puts)
            me = p.params.get(f.params[0][1]) if role == 'ctor' and f.params else None
            c.count('obligations')
            bad = one(m, p, s, role, me, virt, use) or bad
            if bad is None:
                c.count('discharged')
                continue
            c.fail('%s:%s:%s' % (bad[0], role or 'generated', bad[2]), '%s: %s' % (s if s is not None else f.name, bad[1]), 'path decisions: %r' % (p.conds,), f)
            break
        if acted:
            c.case((role, getattr(mod, 'own_label', None), tuple(sorted(acted))), '%s: %s' % (f.name, sorted(acted)))
    # one registry for a class and its first bases
    for cls in mod.classes:
        if not hasattr(cls, 'struct') or cls.full not in use:
            continue
        c.count('obligations')
        names = set(use[cls.full])
        x = cls
        while x.parents:
            x = x.parents[0]
            names |= use.get(x.full, set())
        if len(names) > 1:
            c.fail('registries', 'wrappers of %s and its bases are recorded in different registries: %s' % (cls.full, sorted(names)), '')
            continue
        c.count('discharged')


def label(m, w):
    c = m.cls(w)
    return c[1].kind if c else '?'


def one(m, p, s, role, me, virt, use):
    """first obligation that fails on the path: (kind, message, label) or None"""
    for o in m.ops:
        if o[1] == 'other':
            return 'operation', 'the registry is changed by an operation without contract: %s' % o[3], ''
        if o[1] == 'record':
            i, _, mp, k, w = o
            if not m.wrapper(w):
                continue
            use.setdefault(m.cls(w)[0].full, set()).add(mp)
            # at that moment the wrapper has the object it is recorded for
            have = [kk for (j, x, kk) in m.puts if x.id == w.id and j < i]
            now = have[-1] if have else None if fresh(w) else initial(p, w)
            if k is None or now is None or k != now:
                return 'recorded-wrong', 'a wrapper is recorded for another object than the one it has', label(m, w)
        elif o[1] == 'erase':
            i, _, mp, r = o
            if m.hit(r) is not True:
                return 'erase-untested', 'a record is erased although it may not have been found', ''
            seconds = [(a if a.origin and a.origin[0] == 'field' and a.origin[2] == 'second' else b, b if a.origin and a.origin[0] == 'field' and a.origin[2] == 'second' else a)
                       for a, b, eq in p.eqs if eq]
            mine = [y for x, y in seconds if x.origin and x.origin[0] == 'field' and x.origin[2] == 'second' and x.origin[1].id == r.id]
            if not mine:
                return 'erase-other', 'the record of another wrapper may be erased', ''
    if not success(p):
        return None
    last = {}
    for i, w, k in m.puts:
        last.setdefault(w.id, []).append((i, w, k))
    for wid, ps in last.items():
        i, w, k = ps[-1]
        isnew = fresh(w)
        isself = me is not None and wid == me.id
        if k is not None and not (isnew and wid in m.dead and temporary(m, p, w, ps)):
            if not m.recorded(k, w, i):
                return 'not-recorded', 'a wrapper gets an object and is not recorded for it', label(m, w)
            if k not in m.made and (isnew):
                f = [o for o in m.ops if o[1] == 'find' and o[3] == k and o[0] < i]
                if not f or not any(m.hit(o[4]) is False for o in f):
                    return 'second-wrapper', 'a new wrapper is made for an object that may have one already', label(m, w)
        # temporary objects of a wrapper lent for a call: looked up as well
        if isnew and k is None or isnew and len(ps) > 1:
            k0 = ps[0][2]
            if k0 is not None and k0 not in m.made:
                f = [o for o in m.ops if o[1] == 'find' and o[3] == k0 and o[0] < ps[0][0]]
                if not f or not any(m.hit(o[4]) is False for o in f):
                    return 'second-wrapper', 'a temporary wrapper is made for an object that may have one already', label(m, w)
        if not isnew:
            # what it had before is no longer recorded
            k0 = held_before(m, p, w)
            if k0 is not None and k != k0 and not m.removed(k0, w) and not known_null(p, w):
                return 'stale-record', 'a wrapper loses its object but stays recorded for it', label(m, w)
    # a found wrapper is what Python gets
    for o in m.ops:
        if o[1] != 'find' or m.hit(o[4]) is not True:
            continue
        r = o[4]
        if any(x[1] == 'erase' and x[3].id == r.id for x in m.ops) or any(
                a.origin and a.origin[0] == 'field' and a.origin[2] == 'second' and a.origin[1].id == r.id for t in p.eqs for a in t[:2]):
            continue        # looked up to be removed
        isf = m.found(r)
        given = p.ret is not None and isf(p.ret) or any(
            isf(a) for e in p.events if e.kind == 'call' and e.api and e.name in ('Py_BuildValue', 'PyObject_CallMethod', 'PyObject_CallFunction', 'PyTuple_SetItem', 'PyTuple_SET_ITEM')
            for a in e.args)
        if not given:
            return 'not-given', 'the wrapper found for an object is not what Python gets', ''
    return None


def known_null(p, w):
    v = p.facts
    for x in list(p.heap.values()) + [e.value for e in p.events if e.kind in ('assign', 'decl') and e.value is not None]:
        o = getattr(x, 'origin', None)
        if o and o[0] == 'field' and o[2] == 'obj' and o[1].id == w.id and p.facts.get(x.id) is False:
            return True
    return False


def temporary(m, p, w, ps):
    """made for a call only: destroyed with the call, unless somebody kept it"""
    return any(e.kind == 'branch' and 'Py_REFCNT' in e.cond or e.kind == 'call' and e.name == 'PyErr_Print' for e in p.events)


def held_before(m, p, w):
    """the object an existing wrapper has when the function starts, if it may be another one than it gets"""
    f = w.origin
    if f and f[0] == 'field' and f[2] == 'm_pyself':
        return None     # a wrapper its object knows has that object or none
    if f and f[0] == 'field' and f[2] == 'second':
        return None
    return initial(p, w)


def destroy(c, g, f, ex, maps, structs, cls, isdealloc, clearers, use, ks):
    what = 'tp_dealloc' if isdealloc else 'tp_clear'
    me = f.params[0][1]
    k = ks[cls.full]
    c.case((what, k.kind, getattr(g.mod, 'own_label', None)), '%s of %s (%s)' % (what, cls.full, k.kind))
    for p in ex.paths:
        m = Monitor(p, maps, structs)
        w = p.params.get(me)
        c.count('obligations')
        bad = None
        calls = [e for e in p.events if e.kind == 'call' and isdealloc and e.name == clearers.get(cls.full)]
        if calls:
            c.count('discharged')
            continue
        for o in m.ops:
            if o[1] == 'find':
                use.setdefault(cls.full, set()).add(o[2])
            if o[1] in ('record', 'other'):
                bad = 'records something'
            if o[1] == 'erase' and (m.hit(o[3]) is not True or m.second(o[3], w) is not True):
                bad = 'may erase the record of another wrapper'
        if bad is None and not c14.null_obj(p, me) and not known_null(p, w) and not m.removed(('init', w.id), w):
            bad = 'leaves the wrapper recorded for its object'
        if bad:
            c.fail('%s:%s:%s' % (what, k.kind, bad), '%s of %s (%s) %s' % (what, cls.full, k.kind, bad), 'path decisions: %r' % (p.conds,), f)
            return
        c.count('discharged')


def modules(S):
    mods = c14.modules(S)
    for m in mods:
        m.uses_registry = m.registry is not None
    return mods


def run(S):
    S.rule = RULE
    imported(S)
    emitted.sweep(S, [check], modules(S) + grid.grid_modules(S.rng, S.thorough, combos=8), scripts=False)


def imported(S):
    """a registry is imported under the name it is published with"""
    import io
    from pybindgen import Module, FileCodeSink, settings, cppclass
    from pybindgen.wrapper_registry import StdMapWrapperRegistry
    from .common import fresh
    from minic.parser import Unit
    from minic.sym import Ctx, Exec
    saved = settings.wrapper_registry
    settings.wrapper_registry = StdMapWrapperRegistry
    try:
        for kind in range(4):
            names = {}
            for role in ('publish', 'import'):
                with fresh():
                    m = Module('m%s' % role)
                    o = m.add_cpp_namespace('ns') if kind == 2 else m
                    kw = dict(allow_subclassing=True) if kind == 1 else dict(memory_policy=cppclass.FreeFunctionPolicy('kfree')) if kind == 3 else {}
                    if role == 'import':
                        kw['import_from_module'] = 'mpublish' + ('.ns' if kind == 2 else '')
                    c = o.add_class('K', **kw)
                    if role == 'publish':
                        c.add_constructor([])
                    out = io.StringIO()
                    m.generate(FileCodeSink(out))
                u = Unit(out.getvalue())
                got = set()
                for f in u.funcs:
                    if 'init' not in f.name.lower() and 'm%s' % role not in f.name:
                        continue
                    for p in Exec(Ctx(u), f).run().paths:
                        for e in p.events:
                            if e.kind == 'call' and e.name in ('PyModule_AddObject', 'PyObject_GetAttrString') and 'registry' in e.argtext[1]:
                                got.add(e.argtext[1].split('"')[1])
                names[role] = got
            S.case(('imported', kind), 'registry published as %s, imported as %s' % (sorted(names['publish']), sorted(names['import'])))
            S.count('obligations')
            if len(names['publish']) != 1 or names['publish'] != names['import']:
                S.fail('imported:%d' % kind, 'a registry is published as %s and imported as %s' % (sorted(names['publish']), sorted(names['import'])), '', out.getvalue()[:3000])
            else:
                S.count('discharged')
    finally:
        settings.wrapper_registry = saved
