"""C14 object ownership: on every path of every emitted function the responsibilities for every C++ object add up
(suites.own), with the sources and sinks the declarations name; results are the object itself or a copy as declared;
destruction frees exactly what is owned."""
import itertools
import re
from . import emitted, grid, own
from .corpus import Mod, P, R, targets, I, O, IO
from .emitted import norm, execs, anon
from .own import Ledger, Kind, kind_of, key, null, fresh, NONE, NOT_OWNED
from .c18 import params_of, returned

RULE = 'wrappers that pass, return, copy or destroy an object of a wrapped class'


def kinds(mod):
    out = {}
    for c in mod.classes:
        out[c.full] = kind_of(c)
    return out


def success(p):
    return p.end == 'return' and not p.err and not any(e.kind == 'throw' for e in p.events) and not errret(p)


def errret(p):
    """an error status is returned"""
    if p.ret is None:
        return False
    t = p.ret.text.strip('() ')
    return t in ('NULL', '0', '-1') and p.err


def looked_up_null(p):
    """the path takes a registered wrapper or m_pyself for NULL: excluded by the invariant of the registry / helper"""
    for e in p.events:
        if e.kind == 'assign' and isinstance(e.value, object) and getattr(e.value, 'origin', None):
            o = e.value.origin
            if o[0] == 'field' and o[2] in ('m_pyself', 'second') and p.facts.get(e.value.id) is False:
                return True
    return False


def ptr_null(p, v):
    """is the pointer known to be NULL / not NULL on this path"""
    if null(v):
        return True
    return {False: True, True: False}.get(p.facts.get(v.id))


def eqnone(p, v):
    for a, b, eq in p.eqs:
        if {a.text, b.text} & {'Py_None'} and v.id in (a.id, b.id):
            return eq
    return None


def source_of(mod, s, role, ks, seen):
    """accounts of the call of the wrapped function, as declared"""
    def f(e, led):
        if e not in seen['targets']:
            return
        r = s.ret
        if e.kind == 'call' and role != 'virtual' and r is not None and r.cls and r.form in ('ptr', 'ref') and getattr(e, 'result', None) is not None:
            n = 1 if r.kw.get('caller_owns_return') else 0
            n += 1 if r.kw.get('free_after_copy') else 0
            if n and ptr_null(led.p, e.result) is not True:
                led.add(key(e.result), n, 'owned result of %s' % e.name)
        if getattr(s, 'asctor', None) and getattr(e, 'result', None) is not None and ptr_null(led.p, e.result) is not True:
            led.add(key(e.result), 1, 'owned result of %s' % e.name)
        for k, q in enumerate(s.params):
            if q.cls and q.form == 'ptr' and q.kw.get('transfer_ownership') and q.dir & I:
                a = argument(s, e, k)
                if a is not None and not null(a):
                    led.add(key(a), -1, 'handed to %s' % getattr(e, 'name', 'new'))
    return f


def argument(s, e, k):
    off = len(e.args) - len(s.params)
    return e.args[k + off] if 0 <= k + off < len(e.args) else None


def check(c, g, ws):
    mod = g.mod
    if isinstance(mod, emitted.ScriptMod):
        return
    ks = kinds(mod)
    kl = list({(k.kind, k.inc, k.dec, k.free): k for k in ks.values()}.values())
    structs = dict((x.struct, ks[x.full]) for x in mod.classes if hasattr(x, 'struct'))
    linked = {}
    for w in ws:
        linked[id(w.func)] = w
    skip = disposers(c, g, mod, ks)
    iterators(c, g)
    getters = attributes(g, mod)
    for f, st, ex in execs(g):
        if container(f.name):
            continue
        w = linked.get(id(f))
        if f.name in skip:
            continue
        if w is None and f.name in getters:
            a, what = getters[f.name]
            attribute(c, g, f, ex, a, what, ks, kl, structs)
            continue
        s = w.spec if w is not None else None
        role = w.role if w is not None else None
        good = 0
        interesting = False
        for p in ex.paths:
            if looked_up_null(p):
                continue
            r = accounts(p, f, s, role, st == 'unheld', mod, ks, kl, structs)
            if r is None:
                continue
            led, why = r
            interesting = True
            c.count('obligations')
            if why is None:
                good += 1
                c.count('discharged')
                continue
            kind, msg = why
            if kind.startswith('fallback:'):
                c.fail('fallback:%s' % kind_label(ks, s), '%s: %s' % (s, msg), 'accounts: %s; path decisions: %r' % (led.log, p.conds), f)
                continue
            c.fail('%s:%s:%s' % (kind, role or 'generated', forms(s) if s is not None else anon(f.name)),
                   '%s: %s' % (s if s is not None else f.name, msg), 'accounts: %s; path decisions: %r' % (led.log, p.conds), f)
            break
        if interesting:
            c.case((role, forms(s) if s is not None else anon(f.name), mod.registry), '%s: %s' % (f.name, s))
        if s is not None and role in ('func', 'method') and s.ret is not None and s.ret.cls:
            results(c, g, w, ks)
        if s is not None and role in ('func', 'method', 'ctor'):
            given(c, w, ks, mod)
        if s is not None and role == 'virtual' and s.ret is not None and s.ret.cls and s.ret.form == 'ref':
            dangling(c, w)


def accounts(p, f, s, role, unheld, mod, ks, kl, structs):
    """(ledger of the path, what is wrong or None); None if nothing happened"""
    ts = targets(s, p) if s is not None else []
    me = p.params.get(f.params[0][1]) if role == 'ctor' and f.params else None
    led = Ledger(p, kl, structs, self_fresh=me, override=role == 'virtual' or unheld)
    if role == 'virtual':
        for k, q in enumerate(s.params):
            if q.cls and q.form == 'ptr' and q.kw.get('transfer_ownership'):
                v = p.params.get(f.params[k][1])
                if v is not None and (called(p) or ts) and not ptr_null(p, v):
                    led.add(key(v), 1, 'handed to Python by the caller')
    led.run(source_of(mod, s, role, ks, dict(targets=ts)) if s is not None else None)
    ok = success(p)
    if role == 'virtual' and s.ret is not None and s.ret.cls and s.ret.form == 'ptr' and s.ret.kw.get('caller_owns_return') and not ts \
            and p.ret is not None and not null(p.ret):
        led.add(key(p.ret), -1, 'returned to the caller')
    left = kept(p) if ok and not p.err and p.end in ('return', 'fall') else []
    if left:
        return led, ('wrapper-kept', 'a wrapper is made whose reference is neither handed on nor let go: nothing will free it (%r)' % (left,))
    if not led.log and not led.bad:
        return None
    why = verdict(s, role, p, led, ok and (s is None or bool(ts) or role == 'virtual' and called(p)), ts)
    if why is not None and role == 'virtual' and ts and called(p):
        why = 'fallback:' + why[0], 'the call of the override fails and the C++ implementation is called with an object already given away'
    return led, why


def kept(p):
    """the Python objects made on the path whose reference the emitted code neither hands on nor lets go of"""
    vals = getattr(p, 'refvals', {})
    return [(vals[i].text, n) for i, n in p.refs.items() if n and own.fresh(vals[i]) and not (p.ret is not None and vals[i].id == p.ret.id)]


def forms(s):
    f = lambda x: '%s%s%s' % (re.sub(r'\d+', '#', x.ctype), getattr(x, 'd', None) or '', sorted(x.kw.items()) or '')
    return '%s(%s)' % (f(s.ret) if s.ret is not None else '', ', '.join(f(q) for q in s.params if q.cls))


def kind_label(ks, s):
    return '+'.join(sorted(set(ks[q.cls].kind for q in s.params if q.cls in ks and q.kw.get('transfer_ownership'))))


def container(name):
    return re.search(r'Pystd__', name) is not None


def called(p):
    return any(e.kind == 'call' and e.name.startswith('PyObject_Call') for e in p.events)


def verdict(s, role, p, led, ok, ts):
    for k, msg, w in led.bad:
        if ok or k == 'rebind':
            return k, msg
    if ok:
        nz = led.nonzero()
        # parts of a class the caller of an override keeps are not accounted for
        if nz:
            k = sorted(nz, key=str)[0]
            return ('owned-by-nobody' if nz[k] > 0 else 'owned-twice'), \
                'after the call an object is %s' % ('nobody\'s to free' if nz[k] > 0 else 'freed although it was not owned, or freed twice')
        return None
    thrown = any(e.kind == 'throw' for e in p.events)
    ng = led.negative()
    if thrown:          # whether the callee took the object before it threw is not declared
        ng = dict((k, n) for k, n in ng.items() if not led.handed(k))
    if ng:
        return 'error-owned-twice', 'after a failure an object is freed, or will be, by somebody who does not own it'
    if thrown:
        return None
    if not ts and role in ('func', 'method', 'ctor') and p.end == 'return':
        nz = led.nonzero()
        refs = dict((k, n) for k, n in nz.items() if k[0] == 'init')
        if refs:
            return 'error-changed', 'the call is not made but the ownership of an argument has changed'
    return None


def given(c, w, ks, mod):
    """a wrapper that gave its object away holds nothing, and does not free the object if it is found again through
    its helper class"""
    s = w.spec
    helped = set(x.full for x in mod.classes if getattr(x, 'helper', None))
    for p in w.ex.paths:
        ts = targets(s, p)
        if not success(p) or len(ts) != 1 or looked_up_null(p):
            continue
        for k, q in enumerate(s.params):
            if not (q.cls in ks and q.form == 'ptr' and q.kw.get('transfer_ownership') and q.dir & I) or ks[q.cls].ref or ks[q.cls].kind == 'shared':
                continue
            a = argument(s, ts[0], k)
            ka = key(a) if a is not None and not null(a) else None
            if ka is None or ka[0] != 'init' or ptr_null(p, a):
                continue
            c.count('obligations')
            o, f = p.heap.get((ka[1], 'obj')), p.heap.get((ka[1], 'flags'))
            if o is None or not null(o):
                c.fail('given-kept:%s' % forms(s), '%s: the wrapper keeps an object it gave away' % s, '%r' % (p.conds,), w.func)
                return
            if q.cls in helped and (f is None or own.flag(f) != NOT_OWNED):
                c.fail('given-owned:%s' % forms(s), '%s: the wrapper still counts as the owner of an object it gave away, which the helper class may bring back' % s,
                       '%r' % (p.conds,), w.func)
                return
            c.count('discharged')


def dangling(c, w):
    """what an override returns by reference outlives the call"""
    for p in w.ex.paths:
        if not success(p) or p.ret is None or any(e.kind == 'call' and e in targets(w.spec, p) for e in p.events):
            continue
        c.count('obligations')
        m = p.ret_text.strip('() ')
        if any(e.kind == 'decl' and e.name == m and 'static' not in e.ty and not norm(e.ty).rstrip().endswith(('*', '&')) for e in p.events):
            c.fail('dangling:ref', '%s: the override returns a reference to a variable of its own' % w.spec, 'returns %s' % m, w.func)
            return
        c.count('discharged')


# ------------------------------------------------------------------ results

def results(c, g, w, ks):
    """what is returned is the object itself or a copy, as declared; NULL is None"""
    s, r = w.spec, w.spec.ret
    k = ks.get(r.cls)
    if k is None or r.form == 'shared':
        return
    share = r.form in ('ptr', 'ref') and (bool(r.kw.get('caller_owns_return')) or bool(r.kw.get('reference_existing_object')) or
                                        bool(r.kw.get('return_internal_reference')) or r.kw.get('caller_manages_return') is False)
    if r.form == 'ptr' and k.ref:
        share = True
    for p in w.ex.paths:
        if not success(p) or looked_up_null(p):
            continue
        ts = targets(s, p)
        if len(ts) != 1 or getattr(ts[0], 'result', None) is None:
            continue
        rv = ts[0].result
        out = returned(p)
        if out is None or any(q.dir & O for q in s.params):
            pys = [e for e in p.events if e.kind == 'call' and e.name == 'Py_BuildValue']
            out = pys[-1].items[0][1][0] if pys and pys[-1].items and pys[-1].items[0][1] else None
        if out is None:
            continue
        c.count('obligations')
        isnull = ptr_null(p, rv) if r.form == 'ptr' else False
        alloc = [e for e in p.events if e.kind == 'call' and e.name in ('PyObject_New', 'PyObject_GC_New')]
        if isnull:
            if 'Py_None' not in out.text:
                c.fail('null:%s' % forms(s), '%s: a NULL result is not returned as None' % s, 'returned %s; %r' % (out.text, p.conds), w.func)
                return
            c.count('discharged')
            continue
        if r.form == 'ptr' and isnull is None:
            c.fail('null-untested:%s' % forms(s), '%s: the result is used without a test for NULL' % s, '%r' % (p.conds,), w.func)
            return
        if not fresh(out):
            o = out.origin
            if not (o and o[0] == 'field' and o[2] in ('m_pyself', 'second')):
                c.fail('not-returned:%s' % forms(s), '%s: the result is not what is returned to Python' % s, 'returned %s; %r' % (out.text, p.conds), w.func)
                return
            c.count('discharged')
            continue
        obj = p.heap.get((out.id, 'obj'))
        if obj is None or null(obj):
            c.fail('no-object:%s' % forms(s), '%s: the returned wrapper has no object' % s, '%r' % (p.conds,), w.func)
            return
        same = key(obj) == key(rv)
        if share and not same:
            c.fail('copied:%s' % forms(s), '%s: the returned wrapper does not hold the object that was returned' % s, 'holds %s; %r' % (obj.text, p.conds), w.func)
            return
        if not share:
            made = [e for e in p.events if e.kind == 'new' and e.value.id == obj.id]
            src = made and any(x.id == rv.id or key(x) == key(rv) or (x.origin and x.origin[0] == 'deref' and x.origin[1].id == rv.id) for x in made[0].args)
            if not made and k.kind == 'shared':
                c.count('discharged')
                continue
            if not src:
                c.fail('shared:%s' % forms(s), '%s: the returned wrapper does not hold a copy of the result' % s, 'holds %s; %r' % (obj.text, p.conds), w.func)
                return
        c.count('discharged')


# ------------------------------------------------------------------ attributes

def attributes(g, mod):
    """accessor name -> (attribute, getter/setter)"""
    from .c17 import cstr, cfun
    from .c19 import meta_of
    out = {}
    for cls in mod.classes:
        if not hasattr(cls, 'rows') or not cls.attrs:
            continue
        metas = meta_of(g, cls)
        for static in (False, True):
            rows = cls.rows if not static else (g.types[metas[0]] if metas else [])
            tabs = [t for t in g.getsets if any(re.sub(r'^\(.*?\)\s*', '', x) == t for x in rows)]
            for t in tabs:
                for r in g.getsets[t][:-1]:
                    if len(r) != 5:
                        continue
                    for a in cls.attrs:
                        if a.pyname == cstr(r[0]) and a.static == static:
                            out[cfun(r[1])] = (a, 'get')
                            out[cfun(r[2])] = (a, 'set')
    out.pop('NULL', None)
    return out


def attribute(c, g, f, ex, a, what, ks, kl, structs):
    r = R(a.ctype, **a.kw)
    if not r.cls:
        return
    k = ks.get(r.cls)
    c.case(('attr', what, re.sub(r'\d+', '#', a.ctype), str(sorted(a.kw.items())), a.static, bool(a.getter)), None)
    for p in ex.paths:
        if looked_up_null(p) or not success(p):
            continue
        c.count('obligations')
        led = Ledger(p, kl, structs)
        if what == 'get' and r.kw.get('caller_owns_return') and r.form == 'ptr':
            # the value read is the caller's: account of what the new wrapper holds
            led.run()
            nz = dict((x, n) for x, n in led.nonzero().items() if n != -1)
        elif what == 'set' and r.kw.get('caller_owns_return') and r.form == 'ptr':
            led.run()
            nz = dict((x, n) for x, n in led.nonzero().items() if n != 1)
        else:
            led.run()
            nz = led.nonzero()
        if led.bad:
            c.fail('attr-%s:%s' % (led.bad[0][0], a.ctype), '%s.%s (%s): %s' % (a.cls, a.name, what, led.bad[0][1]), '%r' % (p.conds,), f)
            return
        if nz:
            c.fail('attr:%s:%s%s' % (what, re.sub(r'\d+', '#', a.ctype), sorted(a.kw.items())), '%s.%s (%s %s): an object is %s' % (
                a.cls, a.name, what, r, 'nobody\'s to free' if max(nz.values()) > 0 else 'freed although it is not owned, or freed twice'),
                'accounts: %s; %r' % (led.log, p.conds), f)
            return
        c.count('discharged')


# ------------------------------------------------------------------ destruction

def disposers(c, g, mod, ks):
    """tp_dealloc / tp_clear of every class: names of the functions checked here"""
    names = set()
    for cls in mod.classes:
        if not hasattr(cls, 'rows'):
            continue
        k = ks[cls.full]
        dn = g.slot(cls.rows, 'destructor')
        cn = g.slot(cls.rows, 'inquiry')
        dn, cn = [x if x and x not in ('NULL', '0') else None for x in (dn, cn)]
        names.update(x for x in (dn, cn) if x)
        c.count('obligations')
        if not dn or g.unit.func(dn) is None:
            c.fail('no-dealloc:%s' % k.kind, 'class %s has no destructor function' % cls.full)
            continue
        c.count('discharged')
        dispose(c, g, cls, k, g.unit.func(dn), cn, True)
        if cn:
            dispose(c, g, cls, k, g.unit.func(cn), None, False)
    return names


def iterators(c, g):
    """what destroys or clears the iterator of a container lets go of the container, once"""
    for f in g.unit.funcs:
        if not f.params or not re.search(r'Iter__tp_(dealloc|clear)$', f.name):
            continue
        me, had, bad = f.params[0][1], 0, None
        c.case(('iterator', f.name.split('__')[-1]), 'iterators of containers')
        for p in g.exec(f.name).paths:
            if p.end not in ('return', 'fall') or me not in p.params:
                continue
            c.count('obligations')
            vals = getattr(p, 'refvals', {})
            mine = [v for v in vals.values() if v.origin and v.origin[0] == 'field' and v.origin[2] == 'container' and v.origin[1].id == p.params[me].id]
            n = sum(p.refs.get(v.id, 0) for v in mine)
            had += n == -1
            if n not in (0, -1):
                bad = 'lets go of the container %d times' % -n
            elif not any(e.kind == 'call' and e.name.endswith('__tp_clear') for e in p.events):
                c.count('discharged')
            else:
                had += 1
                c.count('discharged')
        if bad or not had:
            c.fail('iterator-container:%s' % f.name.split('__')[-1], '%s %s' % (f.name, bad or 'never lets go of the container: it is never destroyed'), '', f)


def frees(p, k, cls):
    """events that free the C++ object of the wrapper"""
    out = []
    for e in p.events:
        if e.kind == 'delete':
            out.append(('delete', e, e.value))
        elif e.kind == 'call' and not e.api:
            last = e.name.split('::')[-1]
            if k.kind == 'refm' and last == k.dec and e.base is not None or k.kind in ('reff',) and last == k.dec and e.args:
                out.append(('dec', e, e.base if k.kind == 'refm' else e.args[0]))
            elif k.kind == 'free' and last == k.free and e.args:
                out.append(('free', e, e.args[0]))
            elif k.kind == 'shared' and e.base is not None and (last.startswith('~') or last in ('reset',) and not e.args):
                out.append(('shared', e, e.base))
    return out


def owned_decision(p):
    """(tested, not owned)"""
    for e in p.events:
        if e.kind == 'branch' and NOT_OWNED in e.cond.replace(' ', ''):
            return True, e
    return False, None


def not_owned(p):
    """the path's decision on the flag: None if it was not consulted"""
    for b in [e for e in p.events if e.kind == 'branch'] + [None]:
        pass
    ans = None
    for t in p.conds:
        txt, val = t[0].replace(' ', ''), t[1]
        if NOT_OWNED not in txt and 'flags' not in txt:
            continue
        neg = 0
        while True:
            if txt.startswith('!'):
                neg ^= 1
                txt = txt[1:]
            elif txt.startswith('(') and balanced(txt):
                txt = txt[1:-1]
            else:
                break
        m = re.match(r'^(.*?)(==|!=)(0|%s|%s)$' % (NONE, NOT_OWNED), txt)
        if m:
            same = (m.group(2) == '==') == (m.group(3) == NOT_OWNED)
            if not same:
                neg ^= 1
            txt = m.group(1)
        ans = bool(val) ^ bool(neg)
    return ans


def balanced(t):
    d = 0
    for i, ch in enumerate(t):
        d += ch == '('
        d -= ch == ')'
        if d == 0 and i < len(t) - 1:
            return False
    return t.endswith(')')


def dispose(c, g, cls, k, f, clear, dealloc):
    ex = g.exec(f.name)
    me = f.params[0][1]
    what = 'tp_dealloc' if dealloc else 'tp_clear'
    c.case((what, k.kind, cls.singleton, getattr(cls, 'private', False), bool(cls.helper) if hasattr(cls, 'helper') else None), '%s of %s (%s)' % (what, cls.full, k.kind))
    never = cls.singleton or getattr(cls, 'private', False)
    for p in ex.paths:
        if p.end not in ('return', 'fall'):
            continue
        c.count('obligations')
        fr = frees(p, k, cls)
        mine = [x for x in fr if obj_of(x[2], me)]
        calls = [e for e in p.events if e.kind == 'call' and e.name == clear] if clear else []
        no = not_owned(p)
        isnull = null_obj(p, me)
        bad = None
        if len(fr) != len(mine):
            bad = 'frees something else than the object of the wrapper'
        elif calls and fr or len(calls) > 1:
            bad = 'frees the object twice'
        elif calls:
            bad = None
        elif clear and dealloc and not fr and not never and not isnull and not (no is True):
            bad = 'never frees the object'
        elif never:
            bad = 'frees an object that must not be freed' if fr else None
        elif k.kind == 'shared':
            if len(fr) != 1:
                bad = 'releases the shared pointer %d times' % len(fr)
            elif not dealloc and fr[0][1].name.split('::')[-1].startswith('~'):
                bad = 'destroys the shared pointer, which tp_dealloc destroys again'
        elif isnull and k.kind != 'plain':
            bad = 'passes NULL to %s' % (k.dec or k.free) if fr else None
        elif no is None and fr:
            bad = 'frees the object without looking whether it is owned'
        elif no is True and fr:
            bad = 'frees an object that is not owned'
        elif no is not True and not isnull and len(fr) != 1:
            bad = 'frees an owned object %d times' % len(fr)
        elif len(fr) > 1:
            bad = 'frees the object twice'
        if bad is None and not calls and not (k.kind == 'shared') and not never:
            v = p.heap.get((self_id(p, me), 'obj'))
            if not isnull and (v is None or not null(v)) and not dealloc:
                bad = 'leaves the pointer to the freed object in the wrapper'
        if bad:
            c.fail('%s:%s:%s' % (what, k.kind, bad), '%s of %s (%s) %s' % (what, cls.full, k.kind, bad), 'path decisions: %r' % (p.conds,), f)
            return
        c.count('discharged')


def self_id(p, me):
    v = p.params.get(me)
    return v.id if v is not None else None


def obj_of(v, me):
    o = v.origin
    if o and o[0] == 'field' and o[2] == 'obj' and o[1].text.strip('()').endswith(me):
        return True
    return re.sub(r'[\s()]', '', v.text) in ('%s->obj' % me, '*%s->obj' % me)


def null_obj(p, me):
    i = self_id(p, me)
    for v in list(p.heap.values()) + [e.value for e in p.events if e.kind == 'assign']:
        o = getattr(v, 'origin', None)
        if o and o[0] == 'field' and o[2] == 'obj' and o[1].id == i:
            t = p.facts.get(v.id)
            if t is not None:
                return not t
    return False


# ------------------------------------------------------------------ corpus

REFM = "cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref', peekref_method='PeekRef')"
REFF = "cppclass.ReferenceCountingFunctionsPolicy(incref_function='xref', decref_function='xunref')"
FREE = "cppclass.FreeFunctionPolicy('xfree')"


def class_kinds(m):
    """one class of every kind: (Cls, label)"""
    out = []
    n = [0]

    def mk(label, copy=True, virt=False, ns=None, opts='', mem=None, **kw):
        n[0] = grid.uid()
        c = m.cls('VC%d' % n[0], subclassable=virt, ns=ns, opts=opts, mem=mem, **kw)
        if 'is_singleton' in opts:
            c.singleton = True
        if 'destructor_visibility' in opts:
            c.private = True
        m.ctor(c)
        if copy:
            m.ctor(c, copy=True)
        if not virt and 'is_singleton' not in opts:
            m.asctor(c, 'mk%d' % n[0], [P('int', 'a'), P('int', 'b')], unblock=True if n[0] % 3 == 0 else None)
        if virt:
            m.method(c, 'vv%d' % n[0], R('int'), [P('int', 'a')], virtual=True)
        out.append((c, label))
        return c
    mk('plain')
    mk('plain, not copyable', copy=False)
    mk('subclassable', virt=True)
    mk('subclassable, not copyable', virt=True, copy=False)
    mk('in a namespace', ns='ns')
    mk('narrowing', opts='automatic_type_narrowing=True')
    mk('narrowing, subclassable', virt=True, opts='automatic_type_narrowing=True')
    mk('counted by methods', mem=REFM)
    mk('counted by methods, subclassable', mem=REFM, virt=True)
    mk('counted by methods, narrowing', mem=REFM, opts='automatic_type_narrowing=True', copy=False)
    mk('counted by functions', mem=REFF)
    mk('counted by functions, subclassable', mem=REFF, virt=True)
    mk('freed by a function', mem=FREE)
    mk('freed by a function, subclassable', mem=FREE, virt=True)
    mk('singleton', opts='is_singleton=True')
    mk('private destructor', opts="destructor_visibility='private'", copy=False)
    a = mk('base', mem=REFM, virt=True)
    b = mk('derived, counted', parents=[a])
    d = mk('base, plain')
    e = mk('derived', parents=[d])
    u = mk('base, plain')
    v = mk('base, counted', mem=REFM)
    mk('derived, second base counted', parents=[u, v])
    u = mk('base, freed by a function', mem=FREE)
    v = mk('derived', parents=[u])
    mk('derived twice, freed by a function', parents=[v], virt=True)
    m.extra_known.update(['Ref', 'Unref', 'PeekRef', 'xref', 'xunref', 'xfree'])
    for pol, lab in (('BoostSharedPtr', 'boost'), ('StdSharedPtr', 'std')):
        for virt in (False, True):
            k = grid.uid()
            s = m.cls('VC%d' % k, subclassable=virt, mem="smart_ptr.%s('::VC%d')" % (pol, k))
            m.ctor(s)
            m.ctor(s, copy=True)
            if virt:
                m.method(s, 'vv%d' % k, R('int'), [P('int', 'a')], virtual=True)
            out.append((s, lab + ' shared pointer'))
    return out


def ret_forms(n, k):
    out = [R(n), R('const %s' % n)]
    if k.kind == 'shared':
        return out
    out += [R('%s *' % n, caller_owns_return=True), R('%s *' % n, caller_owns_return=False),
            R('%s const *' % n, caller_owns_return=False), R('%s const *' % n, caller_owns_return=True), R('%s const *' % n),
            R('%s *' % n, reference_existing_object=True), R('%s const *' % n, reference_existing_object=True),
            R('%s *' % n, caller_manages_return=False), R('%s const *' % n, caller_manages_return=False)]
    if not k.ref:
        out += [R('%s *' % n, free_after_copy=True)]
    out += [R('%s &' % n), R('%s const &' % n), R('%s &' % n, caller_owns_return=True), R('%s &' % n, caller_owns_return=False),
            R('%s &' % n, reference_existing_object=True), R('%s const &' % n, reference_existing_object=True),
            R('%s &' % n, caller_manages_return=False), R('%s const &' % n, caller_manages_return=False)]
    return out


def par_forms(n, k):
    out = [P(n, 'x'), P('const %s &' % n, 'x')] + [P('%s &' % n, 'x', d) for d in (I, O, IO)]
    if k.kind == 'shared':
        return out
    for own_ in (True, False):
        out += [P('%s *' % n, 'x', transfer_ownership=own_), P('%s *' % n, 'x', transfer_ownership=own_, null_ok=True),
                P('%s *' % n, 'x', transfer_ownership=own_, default_value='NULL'),
                P('%s *' % n, 'x', transfer_ownership=own_, null_ok=True, default_value='NULL')]
    out += [P('%s const *' % n, 'x'), P('%s const *' % n, 'x', transfer_ownership=False), P('%s const *' % n, 'x', transfer_ownership=True),
            P('%s *' % n, 'x', O, transfer_ownership=False), P('%s *' % n, 'x', IO, transfer_ownership=False)]
    return out


def modules(S):
    mods = []
    regs = [None, 'StdMapWrapperRegistry']
    for reg in regs:
        probe = Mod('p', registry=reg)
        nk = len(class_kinds(probe))
        for i in range(nk):
            m = grid.base_module(registry=reg)
            cl, label = class_kinds(m)[i]
            k = kind_of(cl)
            m.own_label = label
            cb = m.cls('VC%d' % grid.uid(), subclassable=True)
            m.ctor(cb)
            for r in ret_forms(cl.full, k):
                n = grid.uid()
                m.func('f%d' % n, r, [])
                m.method(cl, 'g%d' % n, r, [P('int', 'a')])
                if r.form in ('ptr', 'val', 'ref') and (grid.virtual_ok(r) or r.form == 'ref' and 'const' in r.ctype):
                    m.method(cb, 'h%d' % n, r, [], virtual=True)
                if S.thorough or S.rng.random() < .3:
                    m.func('f%d' % grid.uid(), r, [P('int&', 'b', O)], throws=['Err'])
                if S.thorough or S.rng.random() < .3:
                    m.func('f%d' % grid.uid(), r, [P('%s *' % cl.full, 'x', transfer_ownership=False)] if k.kind != 'shared' else [])
            for q in par_forms(cl.full, k):
                n = grid.uid()
                m.func('f%d' % n, R('int'), [q])
                m.method(cb, 'h%d' % n, R('int'), [q.rename('x')], virtual=True)
                if S.thorough or S.rng.random() < .4:
                    m.func('f%d' % grid.uid(), R('void'), [q.rename('x'), P('short', 'y')] if q.default is None and 'default_value' not in q.kw else [P('short', 'y'), q.rename('x')])
                    c2 = m.cls('VC%d' % grid.uid())
                    m.ctor(c2, [q.rename('z')] if not q.dir & O else [], throws=S.rng.choice([[], [], ['Err'], ['Err2', 'Err']]), unblock=S.rng.choice([None, None, True]))
                    if not q.dir & O and S.rng.random() < .5:
                        m.asctor(c2, 'mk%d' % grid.uid(), [q.rename('z'), P('int', 'y')] if q.default is None and 'default_value' not in q.kw else [P('int', 'y'), q.rename('z')],
                                 unblock=S.rng.choice([None, True]))
            if k.kind != 'shared':
                for (t, kw) in (('%s *' % cl.full, dict(caller_owns_return=False)), ('%s *' % cl.full, dict(reference_existing_object=True)),
                                ('%s' % cl.full, {})):
                    n = grid.uid()
                    m.attr(cb, 'at%d' % n, t, **kw)
                    m.attr(cl, 'as%d' % grid.uid(), t, static=True, **kw)
            mods.append(m)
    return mods


def run(S):
    S.rule = RULE
    refused(S)
    emitted.sweep(S, [check], modules(S) + grid.grid_modules(S.rng, S.thorough, combos=24), scripts=False)


def refused(S):
    """ownership left open is refused when declared"""
    from pybindgen import Module, param, retval
    from pybindgen.typehandlers.base import TypeConfigurationError
    from pybindgen.typehandlers.base import Parameter, ReturnValue
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = Module('m')
        m.add_class('VCa')
        for t in ('VCa *', 'PyObject *', 'VCa*'):
            for kw in ({}, dict(null_ok=True)):
                if 'PyObject' in t and kw:
                    continue
                S.case(('param', t, str(kw)), None)
                try:
                    Parameter.new(t, 'x', **kw)
                except TypeConfigurationError:
                    continue
                except TypeError as e:
                    if 'PyObject' in t:
                        continue
                    S.fail('refused:param', 'parameter %s without ownership: %r' % (t, e), '', '')
                    continue
                S.fail('refused:param', 'a parameter %s whose ownership is not declared is accepted' % t, '', '')
            S.case(('ret', t), None)
            try:
                ReturnValue.new(t)
            except (TypeConfigurationError, TypeError) as e:
                if 'PyObject' not in t and not isinstance(e, TypeConfigurationError):
                    S.fail('refused:return', 'result %s without ownership: %r' % (t, e), '', '')
                continue
            S.fail('refused:return', 'a result %s whose ownership is not declared is accepted' % t, '', '')
        try:
            ReturnValue.new('VCa *', caller_owns_return=True, free_after_copy=True)
            S.fail('refused:both', 'caller_owns_return and free_after_copy together are accepted', '', '')
        except TypeConfigurationError:
            pass
