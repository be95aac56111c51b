"""Ownership ledger of one path of an emitted function.

Every C++ object that is somebody's to free is an account; whoever becomes responsible for freeing it without the
emitted code doing so (the Python wrapper that owns it, the C++ callee it is handed to, a delete) takes one unit, whoever
gives up that responsibility (new, an owned result, a new reference, a wrapper that lets go) brings one.  On a path that
ends well every account is zero; on any path no account is negative."""
import re
from .corpus import V
from .emitted import norm

NONE, NOT_OWNED = 'PYBINDGEN_WRAPPER_FLAG_NONE', 'PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED'


class Kind(object):
    """memory policy of a class, as declared"""
    def __init__(self, kind, inc=None, dec=None, free=None):
        self.kind, self.inc, self.dec, self.free = kind, inc, dec, free

    @property
    def ref(self):
        return self.kind in ('refm', 'reff')


def kind_of(cls):
    c = cls
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c.mem:
            break
        todo += c.parents
    else:
        return Kind('plain')
    t = c.mem
    g = lambda k: (re.search(r"%s='(\w+)'" % k, t) or [None, None])[1]
    if 'ReferenceCountingMethodsPolicy' in t:
        return Kind('refm', g('incref_method'), g('decref_method'))
    if 'ReferenceCountingFunctionsPolicy' in t:
        return Kind('reff', g('incref_function'), g('decref_function'))
    if 'FreeFunctionPolicy' in t:
        return Kind('free', free=re.search(r"\('(\w+)'\)", t).group(1))
    return Kind('shared')


def null(v):
    return v is None or v.id == 0 or v.lit == 0 or v.text.strip('() ') in ('NULL', '0', 'nullptr')


def fresh(v):
    o = v.origin
    return bool(o) and o[0] == 'api' and len(o) > 2 and o[2] in ('PyObject_New', 'PyObject_GC_New')


def key(v):
    """the C++ object a pointer value points to"""
    if v.addr is not None:
        lv = v.addr
        if lv[0] == 'deref':
            return key(lv[1])
        if lv[0] == 'var':
            c = lv[1]
            if c.ty and norm(c.ty).rstrip().endswith('&') and isinstance(c.bound, V):
                return ('id', c.bound.id)
            return ('cell', id(c))
        if lv[0] in ('field', 'index'):
            return (lv[0], lv[1].id, lv[2])
        if lv[0] == 'glob':
            return lv
        if lv[0] == 'tmp':
            return key(lv[1])       # the object a call returns a reference to
        return (lv[0], lv[1].id)
    o = v.origin
    if o and o[0] == 'field' and o[2] == 'obj':
        return ('init', o[1].id)
    if o and o[0] == 'deref':
        return key(o[1])
    return ('id', v.id)


def flag(v):
    t = v.text.replace(' ', '').strip('()')
    if t == NONE or t == '0' or v.lit == 0:
        return NONE
    if t == NOT_OWNED or t == '1' or v.lit == 1:
        return NOT_OWNED
    return t


class Ledger(object):
    def __init__(self, p, kinds, structs, self_fresh=None, override=False):
        """kinds: iterable of Kind; structs: wrapper structure -> Kind; self_fresh: the wrapper a constructor fills in;
        override: the function is an override of a helper class, which points its own wrapper at 'this' while it runs"""
        self.structs, self.override = structs, override
        self.nulls = set()
        self.p = p
        self.bal = {}
        self.log = []
        self.obj, self.flags, self.w = {}, {}, {}      # of wrappers: object, flags
        self.done = {}
        self.bad = []
        self.news = {}
        self.kinds = kinds
        self.self_fresh = self_fresh

    def see(self, v):
        if v is not None and self.p.facts.get(v.id) is False:
            self.nulls.add(key(v))

    def add(self, k, n, why):
        if k in self.nulls:
            return
        self.bal[k] = self.bal.get(k, 0) + n
        self.log.append('%+d %s: %s' % (n, k[0] + (str(k[1]) if k[0] in ('id', 'init') else ''), why))

    def isfresh(self, w):
        return fresh(w) or self.self_fresh is not None and w.id == self.self_fresh.id

    def settle(self, w):
        """what the wrapper is responsible for as it stands"""
        o = self.obj.get(w.id)
        if o is None or null(o) or self.shared(w):
            return None
        if norm(w.ty).rstrip('* ').strip() not in self.structs:
            return key(o)       # wrappers of containers own theirs and have no flags
        f = self.flags.get(w.id, NONE if self.self_fresh is not None and w.id == self.self_fresh.id else None)
        if f is None:
            self.bad.append(('flags', 'a new wrapper gets an object but no ownership flag', w))
            return None
        if f == NOT_OWNED:
            return None
        if f != NONE:
            self.bad.append(('flags', 'unknown ownership flag %s' % f, w))
            return None
        return key(o)

    def shared(self, w):
        k = self.structs.get(norm(w.ty).rstrip('* ').strip())
        return k is not None and k.kind == 'shared'

    def run(self, source=None):
        """source(e, ledger): accounts of the declared calls"""
        p = self.p
        for e in p.events:
            for v in [getattr(e, 'value', None), getattr(e, 'base', None), getattr(e, 'result', None)] + list(getattr(e, 'args', None) or []):
                if isinstance(v, V):
                    self.see(v)
        for v in p.heap.values():
            if isinstance(v, V):
                self.see(v)
        for e in p.events:
            if e.kind in ('new',):
                self.add(key(e.value), 1, 'new %s' % e.ty)
                self.news[e.value.id] = e
                if source is not None:
                    source(e, self)
            elif e.kind == 'delete':
                if not null(e.value):
                    self.add(key(e.value), -1, 'delete')
            elif e.kind == 'assign' and e.lv[0] == 'field' and e.lv[2] in ('obj', 'flags'):
                w, x = e.lv[1], e.value
                if self.override and e.lv[2] == 'obj' and own_wrapper(w):
                    self.obj[w.id] = x
                    continue
                self.w[w.id] = w
                if e.lv[2] == 'obj':
                    if self.isfresh(w):
                        self.obj[w.id] = x
                    elif null(x):
                        if self.flags.get(w.id) != NOT_OWNED:
                            self.add(self.held(w), 1, 'let go by the wrapper %s' % w.text)
                        self.obj[w.id] = x
                    else:
                        self.rebind(w, x)
                        self.obj[w.id] = x
                elif self.shared(w):
                    continue        # its destruction does not look at the flags (c14.dispose)
                else:
                    f = flag(x)
                    if self.isfresh(w):
                        self.flags[w.id] = f
                    elif null_now(self.obj.get(w.id)):
                        self.flags[w.id] = f
                    elif f == NONE:
                        self.add(self.held(w), -1, 'existing wrapper %s becomes the owner' % w.text)
                    elif f == NOT_OWNED:
                        self.flags[w.id] = f
                        self.add(self.held(w), 1, 'existing wrapper %s no longer owns' % w.text)
            elif e.kind == 'call':
                self.call(e)
                if source is not None:
                    source(e, self)
        if self.override:
            for wid, x in self.obj.items():
                w = self.w.get(wid)
                if w is None and key(x) != ('init', wid):
                    self.bad.append(('self', 'the wrapper of the overriding object is left pointing to another object', None))
        for wid, w in self.w.items():
            if not self.isfresh(w):
                continue
            if wid in self.done:
                k = self.done[wid]
            else:
                k = self.settle(w)
            if k is not None:
                self.add(k, -1, 'owned by the new wrapper')
        return self

    def held(self, w):
        o = self.obj.get(w.id)
        if o is not None and not null(o):
            return key(o)
        # found in the registry: the object it was found for
        f = w.origin
        if f and f[0] == 'field' and f[2] == 'second' and f[1].origin and f[1].origin[0] == 'call':
            fe = f[1].origin[2]
            if fe.name == 'find' and fe.args:
                return key(fe.args[0])
        if f and f[0] == 'field' and f[2] == 'm_pyself':
            return key(f[1])
        return ('init', w.id)

    def rebind(self, w, x):
        f = w.origin
        if f and f[0] == 'field' and f[2] == 'm_pyself' and key(f[1]) == key(x):
            return
        if self.held(w) == key(x):
            return
        self.bad.append(('rebind', 'an existing wrapper (%s) is made to point to another object (%s)' % (w.text, x.text), w))

    def call(self, e):
        n = e.name
        if n in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR') and e.args and fresh(e.args[0]):
            w = e.args[0]
            self.w[w.id] = w
            self.done[w.id] = self.settle(w)
            return
        if e.api:
            return
        last = n.split('::')[-1]
        for k in self.kinds:
            if k.kind == 'refm' and last in (k.inc, k.dec) and e.base is not None:
                self.add(key(e.base), 1 if last == k.inc else -1, '%s()' % last)
                return
            if k.kind == 'reff' and last in (k.inc, k.dec) and e.args:
                self.add(key(e.args[0]), 1 if last == k.inc else -1, '%s()' % last)
                return
            if k.kind == 'free' and last == k.free and e.args:
                self.add(key(e.args[0]), -1, '%s()' % last)
                return
        if last == 'reset' and e.args and e.base is not None:
            for a in e.args:
                if a.id in self.news:
                    self.add(key(a), -1, 'managed by the shared pointer')

    def nonzero(self):
        return dict((k, n) for k, n in self.bal.items() if n)

    def handed(self, k):
        t = k[0] + (str(k[1]) if k[0] in ('id', 'init') else '')
        return any(' %s: handed to ' % t in x for x in self.log)

    def negative(self):
        return dict((k, n) for k, n in self.bal.items() if n < 0)


def own_wrapper(w):
    return re.sub(r'\(\w+\s*\*\)|[\s()]', '', w.text) in ('m_pyself', 'this->m_pyself') or \
        bool(w.origin) and w.origin[0] == 'field' and w.origin[2] == 'm_pyself' and w.origin[1].text == 'this'


def null_now(v):
    return v is not None and null(v)
