"""C09 overloads: obligations on every path of every emitted dispatcher (slots called in declaration order,
each with its own exception slot; stops at the first acceptance with its result; TypeError with one message
per slot when all refused; collected exceptions released once) and of every slot (arguments that do not parse
are handed over through the exception slot and nothing else is)."""
import re
from . import emitted, grid
from .corpus import targets, refuses, P, R, I, O, IO
from .emitted import norm, execs, anon
from minic.sym import show

RULE = 'dispatchers over at least two overloads, and their overloads'


def is_slot(f):
    return bool(f.params) and norm(f.params[-1][0]).replace(' ', '') == 'PyObject**'


def slot_calls(p):
    return [e for e in p.events if e.kind == 'call' and hasattr(e, 'refused')]


def dispatchers(c, g, ws):
    for f, st, ex in execs(g):
        if is_slot(f) or not any(slot_calls(p) for p in ex.paths):
            continue
        failing = '-1' if norm(f.ret).strip().split()[-1] == 'int' else 'NULL'
        full = max((slot_calls(p) for p in ex.paths), key=len)
        order = [e.name for e in full]
        n = len(order)
        c.case((anon(f.name), n, len(f.params)), '%s tries %s' % (f.name, ', '.join(order)))
        c.count('dispatchers')
        c.count('overloads in dispatchers', n)
        what = 'dispatcher %s' % f.name
        accepted = set()
        for p in ex.paths:
            es = slot_calls(p)
            c.count('obligations')
            bad = path_problem(f, p, es, order, failing, accepted)
            if bad is None:
                c.count('discharged')
            else:
                c.fail('%s:%s' % (bad[0], anon(f.name)), '%s: %s' % (what, bad[1]),
                       'path decisions: %r; overloads tried: %r; refs %r' % (p.conds, [(e.name, e.refused) for e in es], p.refs), f)
        c.count('obligations')
        if accepted == set(order) and len(set(order)) == n:
            c.count('discharged')
        else:
            c.fail('unreachable:%s' % anon(f.name), '%s: some overload can never be the one that is called' % what, '%r of %r' % (sorted(accepted), order), f)


def path_problem(f, p, es, order, failing, accepted):
    if p.end != 'return':
        return ('ends', 'a path ends without returning (%s)' % p.end)
    if [e.name for e in es] != order[:len(es)]:
        return ('order', 'overloads are not tried in one order')
    if any(not e.refused for e in es[:-1]):
        return ('goes-on', 'another overload is tried after one that accepted its arguments')
    if not es:
        return ('none', 'returns without trying an overload')
    # arguments handed over as they are; each overload has its own exception slot, empty before
    own = set()
    for e in es:
        want = [nm for ty, nm in f.params]
        for nm, v in zip(want, e.args):
            if p.params.get(nm) is None or v.id != p.params[nm].id:
                return ('arguments', 'overload %s is not given the argument "%s" of the call' % (e.name, nm))
        if len(e.args) != len(want) + 1:
            return ('arguments', 'overload %s is called with %d arguments' % (e.name, len(e.args)))
        s = e.argtext[-1]
        if s in own:
            return ('slot', 'two overloads share the exception slot %s' % s)
        own.add(s)
        a = e.args[-1].addr
        a = a if a is not None and a[0] == 'index' and isinstance(a[2], int) else None
        for d in p.events:
            if a and d.kind == 'decl' and d.arr and d.value.id == a[1].id:
                k = show(d.arr) if not isinstance(d.arr, (str, int)) else str(d.arr)
                if k.isdigit() and int(k) <= a[2]:
                    return ('slot', 'the exception slot %s of an array of %s' % (s, k))
    last = es[-1]
    errs = [e for e in p.events if e.kind == 'call' and e.name.startswith('PyErr_')]
    # every exception collected is released exactly once
    for e in es:
        if e.refused and p.refs.get(e.exc.id, 0) != 0:
            return ('release', 'the exception of overload %s is released %s' % (e.name, 'never' if p.refs[e.exc.id] > 0 else 'more than once'))
    if not last.refused:
        accepted.add(last.name)
        if p.ret is None or p.ret.id != last.result.id:
            return ('result', 'the result of the accepting overload %s is not what is returned' % last.name)
        if errs:
            return ('error', 'an error is set or cleared after overload %s accepted' % last.name)
        return None
    if len(es) != len(order):
        return ('stops', 'gives up before all overloads were tried')
    if p.ret is None or p.ret.text.replace(' ', '') != failing and not (failing == 'NULL' and p.ret.text in ('0', 'NULL')):
        return ('failing', 'does not report a failure when every overload refused (returns %s)' % (p.ret.text if p.ret is not None else None))
    if len(errs) != 1 or errs[0].name != 'PyErr_SetObject' or 'PyExc_TypeError' not in errs[0].argtext[0]:
        return ('typeerror', 'no TypeError when every overload refused')
    lst = errs[0].args[1]
    news = [e for e in p.events if e.kind == 'call' and e.name == 'PyList_New' and e.result.id == lst.id]
    if not news or news[0].argtext[0] != str(len(order)):
        return ('messages', 'the TypeError does not carry a list of one message per overload')
    if p.refs.get(lst.id, 0) != 0:
        return ('leak', 'the list of messages is not released exactly once')
    items = [e for e in p.events if e.kind == 'call' and e.name in ('PyList_SET_ITEM', 'PyList_SetItem') and e.args[0].id == lst.id]
    got = {}
    for e in items:
        o = e.args[2].origin
        src = o[3][0].id if o and o[0] == 'api' and o[2] == 'PyObject_Str' else None
        if e.argtext[1] in got:
            return ('messages', 'message %s is stored twice' % e.argtext[1])
        got[e.argtext[1]] = src
        if e.seq > errs[0].seq:
            return ('messages', 'a message is stored after the TypeError was raised')
        # read while the exception is still alive
        for x in es:
            if x.exc.id == src and any(d.kind == 'call' and d.name in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR') and d.args[0].id == src and d.seq < str_seq(p, e.args[2]) for d in p.events):
                return ('messages', 'the message of %s is made after its exception was released' % x.name)
    want = dict((str(i), e.exc.id) for i, e in enumerate(es))
    if got != want:
        return ('messages', 'the messages are not those of the overloads, in order')
    return None


def str_seq(p, v):
    for e in p.events:
        if e.kind == 'call' and getattr(e, 'result', None) is v:
            return e.seq
    return -1


PARSERS = ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', 'PyArg_UnpackTuple')


def slots(c, g, ws):
    """one overload: refused arguments go to the exception slot, everything else does not"""
    by = {}
    for w in ws:
        by[id(w.func)] = w
    for f, st, ex in execs(g):
        if not is_slot(f):
            continue
        failing = '-1' if norm(f.ret).strip().split()[-1] == 'int' else 'NULL'
        out = f.params[-1][1]
        w = by.get(id(f))
        refusals = acceptances = 0
        for p in ex.paths:
            if p.end == 'cut':
                continue
            pv = p.params[out]
            fetch = [e for e in p.events if e.kind == 'call' and e.name == 'PyErr_Fetch']
            stored = [e for e in fetch if getattr(e, 'exc_dest', None) is not None and e.exc_dest.id == pv.id]
            others = [e for e in p.events if e.kind == 'assign' and e.lv and e.lv[0] == 'deref' and e.lv[1].id == pv.id]
            parses = [e for e in p.events if e.kind == 'call' and e.name in PARSERS]
            failed = any(getattr(e, 'ok', None) is False for e in parses)
            reached = targets(w.spec, p) if w is not None else []
            sets = [e for e in p.events if e.kind == 'call' and e.name in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject')]
            conv = [e for e in sets if not reached or e.seq < reached[0].seq]
            c.count('obligations')
            bad = None
            if others:
                bad = ('slot-write', 'the exception slot is written directly')
            elif failed and not stored:
                bad = ('not-refused', 'arguments that do not parse are not reported as refused')
            elif stored and reached:
                bad = ('refused-after-call', 'arguments are reported as refused after the C++ call was made')
            elif stored and not failed and not conv:
                bad = ('refused-parsed', 'arguments that parsed are reported as refused')
            elif not stored and conv and w is not None and not reached and not any(e.kind == 'call' and e.name in ('PyErr_Warn', 'PyErr_WarnEx') for e in p.events) and refusing(conv):
                bad = ('not-refused-value', 'arguments that cannot be converted are not reported as refused')
            elif stored:
                if len(stored) != 1 or p.err:
                    bad = ('pending', 'an error stays set beside the one handed over')
                elif p.ret is None or p.ret.text.replace(' ', '') != failing:
                    bad = ('failing', 'refused arguments return %s' % (p.ret.text if p.ret is not None else None))
                else:
                    for e in p.events:
                        if e.kind == 'assign' or e.kind != 'call':
                            continue
                    left = [k for k, n in p.refs.items() if n != 0]
                    fv = fetched(p, stored[0])
                    if any(p.refs.get(x.id, 0) != 0 for x in fv):
                        bad = ('leak', 'the type or traceback of a refused call is not released')
            if bad is None:
                c.count('discharged')
                refusals += bool(stored)
                acceptances += not stored
            else:
                c.fail('%s:%s' % (bad[0], w.spec.kind if w else anon(f.name)), '%s (%r): %s' % (f.name, w.spec if w else '', bad[1]),
                       'path decisions: %r; returned %s' % (p.conds, p.ret.text if p.ret is not None else None), f)
        c.case(('slot', anon(f.name), str(w.spec.params) if w else ''), None)
        c.count('obligations')
        if refusals and acceptances:
            c.count('discharged')
        else:
            c.fail('one-sided:%s' % (w.spec.kind if w else anon(f.name)), '%s (%r): %s' % (f.name, w.spec if w else '', 'never refuses' if acceptances else 'never accepts'), '', f)


def refusing(es):
    return any('PyExc_TypeError' in e.argtext[0] or 'PyExc_ValueError' in e.argtext[0] for e in es)


def fetched(p, e):
    """what PyErr_Fetch stored besides the exception"""
    out = []
    for a in (e.args[0], e.args[2]):
        if a.addr is not None and a.addr[0] == 'var' and a.addr[1].val is not None:
            out.append(a.addr[1].val)
    return out


def declared_order(c, g, ws):
    """the slots of a dispatcher are the generated overloads, in the order they were declared"""
    mod = g.mod
    sets = getattr(mod, 'ovl', [])
    for (what, fns, good, nm, cls) in sets:
        fname = locate(g, mod, what, nm, cls)
        c.count('obligations')
        f = g.unit.func(fname) if fname else None
        if f is None:
            if not good:
                c.count('discharged')
                continue
            c.fail('missing:%s' % what, 'overloads %r: no function is generated' % (fns,), '')
            continue
        ex = g.exec(fname)
        full = max((slot_calls(p) for p in ex.paths), key=len)
        names = [e.name for e in full] or [fname]
        if not good and refuses(g, fname):
            c.count('discharged')
            continue
        got = [signature(g, n) for n in names]
        want = [[p.name for p in s.params if p.dir & I] for s in good]
        if got == want:
            c.count('discharged')
        else:
            c.fail('declared-order:%s' % what, 'overloads %r: tried as %r instead of %r' % (fns, got, want), '', f)


def signature(g, fname):
    ex = g.exec(fname)
    for p in ex.paths:
        for e in p.events:
            if e.kind == 'call' and e.name == 'PyArg_ParseTupleAndKeywords':
                k = getattr(e, 'keywords', None)
                return k[:-1] if k is not None else None
    return []


ARGS = [('int', {}), ('double', {}), ('bool', {}), ('std::string', {}), ('K &', {}), ('K', {}), ('V *', dict(transfer_ownership=False)), ('int16_t', {}), ('uint8_t', {}),
        ('std::vector< int >', {}), ('PyObject*', dict(transfer_ownership=True)), ('E', {}), ('ns::N', {}), ('ns::N &', {}), ('float', {}), ('char', {}),
        ('int8_t', {}), ('boost::shared_ptr< S >', {}), ('std::map< std::string, int >', {}), ('V *', dict(transfer_ownership=True)), ('ns::N const &', {})]


def overload(rng, ctor=False, pure_ok=True):
    q = rng.choice([0, 1, 1, 2, 2, 3])
    ps = []
    for i in range(q):
        t, kw = rng.choice(ARGS)
        ps.append(P(t, 'p%d' % grid.uid(), **kw))
    if rng.random() < .2:
        ps.append(P('int', 'p%d' % grid.uid(), default='7'))
    if not ctor and rng.random() < .2:
        ps.append(P(rng.choice(['int&', 'double&']), 'p%d' % grid.uid(), O))
    return ps


def modules(rng, thorough):
    out = []
    for k in range(24 if thorough else 8):
        m = grid.base_module(registry='StdMapWrapperRegistry' if k % 4 == 3 else None)
        m.ovl = []
        m.line("Sub.implicitly_converts_to(ns_N)")
        for j in range(5):
            n = rng.choice([1, 2, 2, 3, 4, 5, 6] + ([9, 12] if thorough else []))
            kind = rng.choice(['func', 'method', 'static', 'ctor', 'nsfunc', 'call', 'mixed', 'protected', 'pureabs'])
            good, fns = [], []
            nm = 'o%d' % grid.uid()
            cls = None
            if kind not in ('func', 'nsfunc'):
                cls = m.cls('VC%d' % grid.uid(), subclassable=kind in ('protected', 'pureabs') or rng.random() < .4)
                if kind != 'ctor':
                    m.ctor(cls)
            seen = set()
            for i in range(n):
                ps = overload(rng, kind == 'ctor')
                while tuple(x.ctype for x in ps) in seen:
                    ps = overload(rng, kind == 'ctor')
                seen.add(tuple(x.ctype for x in ps))
                bad = rng.random() < .15
                if bad:
                    ps.insert(0, P('Unknown', 'u%d' % grid.uid()))
                r = rng.choice([R('int'), R('void'), R('K'), R('std::string'), R('V *', caller_owns_return=True)])
                th = rng.choice([[], [], ['Err'], ['Err2', 'Err']])
                dep = rng.choice([None, None, None, 'old'])
                ub = rng.choice([None, None, True])
                if kind == 'func':
                    s = m.func(nm, r, ps, throws=th, unblock=ub, deprecated=dep)
                elif kind == 'nsfunc':
                    s = m.func(nm, r, ps, throws=th, unblock=ub, deprecated=dep, ns='ns')
                elif kind == 'ctor':
                    if any(x.dir & O for x in ps):
                        ps = [x for x in ps if not x.dir & O]
                    s = m.ctor(cls, ps, throws=th, unblock=ub, deprecated=dep)
                elif kind == 'mixed':
                    s = m.method(cls, 'g%d' % grid.uid(), r, ps, py=nm, throws=th, unblock=ub, deprecated=dep, static=False, const=rng.random() < .5, virtual=rng.random() < .3)
                elif kind == 'call':
                    s = m.method(cls, 'g%d' % grid.uid(), r, ps, py='__call__', throws=th, unblock=ub, deprecated=dep)
                elif kind == 'protected':
                    s = m.method(cls, nm, r, ps, virtual=True, visibility='protected')
                elif kind == 'pureabs':
                    s = m.method(cls, nm, r, ps, virtual=rng.random() < .5, throws=th, unblock=ub, deprecated=dep)
                else:
                    s = m.method(cls, nm, r, ps, static=kind == 'static', throws=th, unblock=ub, deprecated=dep)
                fns.append(s)
                if not bad:
                    good.append(s)
            # a parameter without overloads keeps whatever convention; keywords only when two are declared
            m.ovl.append((kind, fns, good, nm, cls))
        out.append(m)
    return out


def locate(g, m, kind, nm, cls):
    if kind == 'func':
        for (n, f, fl) in g.methods(m.name + '_functions'):
            if n == nm:
                return f
        return None
    if kind == 'nsfunc':
        for t in g.tables:
            if t.endswith('_functions') and t != m.name + '_functions':
                for (n, f, fl) in g.methods(t):
                    if n == nm:
                        return f
        return None
    if kind == 'ctor':
        return cls.tpinit if getattr(cls, 'tpinit', None) not in (None, 'NULL', '0') else None
    if kind == 'call':
        for x in cls.rows:
            mm = re.match(r'\(\s*ternaryfunc\s*\)\s*(\w+)$', x)
            if mm and mm.group(1) != 'NULL':
                return mm.group(1)
        return None
    mt = g.slot(cls.rows, 'PyMethodDef*') or ''
    for (n, f, fl) in g.methods(mt):
        if n == nm:
            return f
    return None


def run(S):
    mods = modules(S.rng, S.thorough) + grid.other_modules(S.rng, S.thorough) + grid.grid_modules(S.rng, S.thorough)[-10:]
    emitted.sweep(S, [dispatchers, slots, declared_order, emitted.problems(('null',), 'reference count')], mods)
