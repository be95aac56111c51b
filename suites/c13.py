"""C13 declared C++ exceptions: obligations on the catch lists and on every path through a handler."""
import re
import z3
from . import emitted, grid
from .corpus import targets, P, R, I, O, IO
from .emitted import find, norm, show

RULE = 'wrappers with at least one declared exception'

# name -> (C++ type, python type or None for a generated one, message)
EXCS = {
    'Err': ('Err', None, 'exc.what()'),
    'Err2': ('Err2', None, None),
    'std_err': ('std::exception', None, 'exc.what()'),
    'rt_err': ('RuntimeError', 'PyExc_RuntimeError', 'exc.what()'),
    'val_err': ('MyValueError', 'PyExc_ValueError', None),
    'ns_err': ('ns::NErr', None, 'exc.text(1)'),
    'msg_err': ('MErr', None, '(exc).str().c_str()'),
    'ns_same': ('ns::Err', None, 'exc.what()'),
    'std_same': ('std::Err', 'PyExc_OSError', None),
    'a_base': ('AaBase', None, None),
}
DECLS = [
    "std_err = mod.add_exception('exception', foreign_cpp_namespace='std', custom_name='StdExc', message_rvalue='%(EXC)s.what()')",
    "rt_err = mod.add_exception('RuntimeError', is_standard_error=True, message_rvalue='%(EXC)s.what()')",
    "val_err = mod.add_exception('MyValueError', custom_name='ValueError', is_standard_error=True)",
    "ns_err = ns.add_exception('NErr', message_rvalue='%(EXC)s.text(1)')",
    "msg_err = mod.add_exception('MErr', message_rvalue='(%(EXC)s).str().c_str()')",
    "ns_same = ns.add_exception('Err', message_rvalue='%(EXC)s.what()')",
    "std_same = mod.add_exception('Err', foreign_cpp_namespace='std', custom_name='OSError', is_standard_error=True)",
    "a_base = mod.add_exception('AaBase')",
]
PYNAME = {'Err': 'm.Err', 'Err2': 'm.Err2', 'std_err': 'm.StdExc', 'ns_err': 'm.ns.NErr', 'msg_err': 'm.MErr', 'ns_same': 'm.ns.Err', 'a_base': 'm.AaBase'}


def flat(s):
    return re.sub(r'\s+', '', s)


def exc_vars(g):
    """python exception name -> type variables holding it, from the module's own initialisation"""
    out = {}
    for m in re.finditer(r'(\w+)\s*=\s*\(\s*PyTypeObject\s*\*\s*\)\s*PyErr_NewException\s*\(\s*\(char\s*\*\)\s*"([^"]*)"', g.text):
        out.setdefault(m.group(2), []).append(m.group(1))
    return out


def is_const(v, n):
    z = getattr(v, 'z', None)
    if z is not None and z3.is_expr(z):
        if z.sort() == z3.IntSort():
            z = z3.simplify(z)
            return z3.is_int_value(z) and z.as_long() == n
        return False
    return v.lit == n or (n == 0 and v.text in ('NULL', 'nullptr', '0'))


def uncast(s):
    s = s.strip()
    while True:
        m = re.match(r'\(\s*[\w ]+\*+\s*\)\s*(.*)$', s)
        if not m:
            return s
        s = m.group(1)


def handlers(c, g, ws):
    linked = {}
    for w in ws:
        if w.role != 'virtual':
            linked[id(w.func)] = w
    ev = exc_vars(g)
    for f in g.unit.funcs:
        w = linked.get(id(f))
        throws = w.spec.throws if w is not None else []
        body = f.body(g.unit.types)
        tries = find(body, 'try')
        c.count('obligations')
        if len(tries) == (1 if throws else 0):
            c.count('discharged')
        else:
            if w is None and g.missing:
                continue
            c.fail('handlers:%s' % (w.role if w else 'other'), '%s: %d exception handlers for %d declared exceptions' % (w.spec if w else f.name, len(tries), len(throws)), '', f)
            continue
        if not throws:
            continue
        one(c, g, w, tries[0], ev)


def one(c, g, w, t, ev):
    s = w.spec
    want = [EXCS[x] for x in s.throws]
    got = []
    for (ty, nm, blk) in t.a[1]:
        ty = norm(ty)
        isref = ty.endswith('&')
        base = ty.rstrip('&').strip()
        const = bool(re.search(r'\bconst\b', base))
        got.append((re.sub(r'\bconst\b', '', base).strip().lstrip(':'), isref and const))
    c.case((w.role, tuple(s.throws), str(s.params), s.unblock), repr(s) + ' throws ' + ', '.join(s.throws))
    c.count('obligations')
    if got == [(x[0], True) for x in want]:
        c.count('discharged')
    else:
        c.fail('catch-list:%s' % w.role, '%r declares %r but the handlers are %r' % (s, [x[0] for x in want], got), '', w.func)
        return
    seen = set()
    for p in w.ex.paths:
        th = [e for e in p.events if e.kind == 'throw']
        ca = [e for e in p.events if e.kind == 'catch']
        tg = targets(s, p)
        for e in tg:
            c.count('obligations')
            c.count('discharged')
        if not ca:
            # a normal path: the call must be covered by the handlers, i.e. it forked into them
            continue
        k = ca[0].index
        if tg or s.kind == 'ctor':
            seen.add(k)
        cpp, std, msg = want[k]
        after = [e for e in p.events if e.seq > ca[0].seq and e.kind == 'call']
        errs = [e for e in after if e.name.startswith(('PyErr_Set', 'PyErr_Format'))]
        probs = []
        if len(errs) != 1:
            probs.append('the exception is set %d times' % len(errs))
        else:
            e = errs[0]
            tyname = uncast(e.argtext[0]) if getattr(e, 'argtext', None) else ''
            tyname = tyname.lstrip('&')
            okt = [std] if std else ev.get(PYNAME[s.throws[k]], [])
            if tyname not in okt:
                probs.append('sets the exception type %s, expected %s' % (tyname, okt))
            if msg is None:
                if e.name != 'PyErr_SetNone':
                    probs.append('a message is set though none was declared')
            else:
                var = ca[0].name
                exp = flat(msg.replace('exc', var or '?'))
                if e.name != 'PyErr_SetString' or flat(e.argtext[1]) != exp:
                    probs.append('message expression is %s, expected %s' % (e.argtext[1:], exp))
            if any(x.name in ('PyErr_Clear', 'PyErr_Fetch', 'PyErr_Print') and x.seq > e.seq for x in after):
                probs.append('the exception is cleared again')
        if p.end != 'return':
            probs.append('the handler does not return')
        else:
            r = p.ret
            ok = r is not None and is_const(r, -1 if s.kind == 'ctor' else 0)
            if not ok:
                probs.append('returns %s' % (p.ret_text,))
        # a reference handed to the C++ side with the call is the wrapper's no more
        given = set(a.id for a, q in zip(th[0].args, s.params) if q.ctype == 'PyObject*' and q.kw.get('transfer_ownership'))
        for vid, n in p.refs.items():
            if n and not (vid in given and n == 1):
                probs.append('%s is left with %+d references' % (p.refvals[vid].text if hasattr(p, 'refvals') else vid, n))
        for e in p.events:
            if e.kind == 'assign' and e.lv and e.lv[0] == 'deref' and e.lv[1].text == 'return_exception':
                probs.append('the raised exception is reported as refused arguments')
        c.count('obligations')
        if probs:
            c.fail('handler:%s' % w.role, '%r, when %s is thrown: %s' % (s, cpp, '; '.join(probs)), 'path decisions: %r' % (p.conds,), w.func)
        else:
            c.count('discharged')
    c.count('obligations')
    if seen == set(range(len(want))):
        c.count('discharged')
    else:
        c.fail('uncovered:%s' % w.role, '%r: the C++ call does not reach the handlers of %s' % (s, [want[i][0] for i in range(len(want)) if i not in seen]), '', w.func)


def modules(rng, thorough):
    out = []
    names = list(EXCS)
    for k in range(8 if thorough else 3):
        m = grid.base_module(registry='StdMapWrapperRegistry' if k % 3 == 2 else None)
        for l in DECLS:
            m.line(l)
        m.extra_known.update(['exception', 'RuntimeError', 'MyValueError', 'NErr', 'MErr', 'AaBase', 'OSError', 'text', 'str', 'c_str'])
        rs = [R('int'), R('void'), R('K'), R('K *', caller_owns_return=True), R('std::string'), R('V'), R('std::vector< int >'), R('PyObject*', caller_owns_return=True),
              R('V &', caller_owns_return=False), R('int16_t')]
        ps = [P('int', 'a'), P('K &', 'a'), P('std::vector< int >', 'a'), P('int16_t', 'a'), P('int&', 'a', O), P('PyObject*', 'a', transfer_ownership=False),
              P('std::string &', 'a', IO), P('V *', 'a', transfer_ownership=False), P('K &', 'a', O), P('bool', 'a'), P('char', 'a'), P('K *', 'a', transfer_ownership=False, null_ok=True),
              P('int', 'a', default='3'), P('unsigned int*', 'a', I, array_length=3), P('ns::N const &', 'a')]
        m.line("Sub.implicitly_converts_to(ns_N)")
        for j in range(40):
            th = rng.sample(names, rng.choice([1, 1, 2, 3, 4]))
            qs = [p.rename('a%d' % i) for i, p in enumerate(sorted(rng.sample(ps, rng.choice([0, 1, 2, 3])), key=lambda p: p.default is not None))]
            ub = rng.choice([None, None, True])
            r = rng.choice(rs)
            n = grid.uid()
            kind = rng.choice(['func', 'ovl', 'method', 'static', 'virtual', 'ctor', 'ctors', 'prot', 'nsfunc', 'none', 'mi'])
            wards = []
            if rng.random() < .2:
                vs = [i + 1 for i, p in enumerate(qs) if p.ctype == 'V *']
                if vs and r.ctype in ('V', 'V &'):
                    wards = [(vs[0], -1, None)] if rng.random() < .5 else [(-1, vs[0], None)]
            if kind == 'none':
                m.func('f%d' % n, r, qs)
            elif kind in ('func', 'nsfunc'):
                m.func('f%d' % n, r, qs, throws=th, unblock=ub, wards=wards, ns='ns' if kind == 'nsfunc' else None)
            elif kind == 'ovl':
                m.func('f%d' % n, r, qs, throws=th, unblock=ub)
                m.func('f%d' % n, R('int'), [P('double', 'q'), P('double', 'q2')], throws=rng.sample(names, rng.choice([0, 1, 2])), unblock=ub)
            else:
                parents = []
                if kind == 'mi':
                    p1 = m.cls('VC%d' % grid.uid(), subclassable=True)
                    m.ctor(p1)
                    f = m.method(p1, 'g%d' % n, r, qs, throws=th, unblock=ub)
                    c = m.cls('VC%d' % n, parents=[m.base['K'], p1], subclassable=True)
                    m.ctor(c)
                    # wrapped again in the class with several parents
                    f2 = type(f)('VC%d.g%d.0' % (n, n), 'method', f.name, f.ret, f.params, cls=c.full, throws=th, unblock=ub)
                    c.fns.append(f2)
                    continue
                c = m.cls('VC%d' % n, subclassable=rng.random() < .6 or kind == 'prot', parents=parents)
                if kind in ('ctor', 'ctors'):
                    qs = [p for p in qs if not p.dir & O]
                    m.ctor(c, qs, throws=th, unblock=ub)
                    if kind == 'ctors':
                        m.ctor(c, [P('double', 'q'), P('double', 'q2')], throws=rng.sample(names, rng.choice([0, 1, 2])), unblock=ub)
                    continue
                m.ctor(c)
                if r.form == 'ref' and kind in ('virtual', 'prot'):
                    r = R('int')
                m.method(c, 'g%d' % n, r, qs, virtual=kind == 'virtual', static=kind == 'static', throws=th, unblock=ub,
                         visibility='protected' if kind == 'prot' else 'public')
        out.append(m)
    return out


def run(S):
    mods = modules(S.rng, S.thorough) + grid.all_modules(S.rng, S.thorough)
    for m in mods:
        m.extra_known.update(['NErr'])
    emitted.sweep(S, [handlers], mods, scripts=False)
