"""C12 interpreter lock: typestate obligations on every path of every emitted function of the
corpus; for linked wrappers also: the target call is made with the lock released iff asked for."""
from . import emitted, grid
from .corpus import targets, P, R, Mod, I, O, IO

RULE = 'emitted functions that touch the lock, or wrappers with a declared threading option'


def nothreads(p):
    return any(cond.startswith('PyEval_ThreadsInitialized') and taken is False for (cond, taken, _) in p.conds)


def balance(c, g, ws):
    for f, st, ex in emitted.execs(g):
        c.count('emitted functions')
        for p in ex.paths:
            if p.end == 'cut':
                continue
            ok = p.gil == st and not p.gilstack and p.saved is None or nothreads(p)
            if p.end == 'fatal':
                ok = True
            c.count('obligations')
            if ok:
                c.count('discharged')
            else:
                c.fail('balance:%s' % emitted.anon(f.name), 'a path of %s returns with the lock %s (entered %s)' % (f.name, p.gil, st),
                       'path decisions: %r' % (p.conds,), f)


def released(c, g, ws):
    """released around the target exactly when asked for"""
    default = getattr(g.mod, 'unblock_default', False)
    for w in ws:
        s = w.spec
        if w.role == 'virtual':
            continue
        want = s.unblock if s.unblock is not None else default
        n = 0
        for p in w.ex.paths:
            threads = [e for e in p.events if e.kind == 'call' and e.name == 'PyEval_SaveThread']
            for e in targets(s, p):
                n += 1
                c.count('obligations')
                # without threads there is no lock to release
                ok = (e.gil == 'released') == bool(want) or bool(want) and nothreads(p) and not threads
                if ok:
                    c.count('discharged')
                else:
                    c.fail('released:%s' % s.kind, '%r: the C++ call runs with the lock %s, unblock_threads=%r' % (s, e.gil, want),
                           'path decisions: %r' % (p.conds,), w.func)
        c.case((w.role, s.unblock, tuple(s.throws), str(s.params)) if want else None, None)


def proxies(c, g, ws):
    """overrides: Python is used only between acquiring and releasing the lock"""
    for w in ws:
        if w.role != 'virtual':
            continue
        c.case(('virtual', str(w.spec)))
        for p in w.ex.paths:
            if p.end not in ('return', 'fall'):
                continue
            en = [e for e in p.events if e.kind == 'call' and e.name == 'PyGILState_Ensure']
            de = [e for e in p.events if e.kind == 'call' and e.name == 'PyGILState_Release']
            c.count('obligations')
            if len(en) == len(de) and len(en) <= 1:
                c.count('discharged')
            else:
                c.fail('proxy:%s' % w.spec.kind, '%r: lock acquired %d times and released %d times' % (w.spec, len(en), len(de)),
                       'path decisions: %r' % (p.conds,), w.func)


def modules(rng, thorough):
    """every kind of wrapper with the option on, off, and through the global setting"""
    out = []
    for default in (None, True):
        m = grid.base_module()
        m.unblock_default = bool(default)
        if default:
            i = m.lines.index("mod = Module('m')")
            m.lines.insert(i, 'settings.unblock_threads = True')
        rs = [R('int'), R('void'), R('K'), R('K *', caller_owns_return=True), R('std::string'), R('V &', caller_owns_return=False), R('std::vector< int >')]
        pss = [[], [P('int', 'a')], [P('K &', 'a')], [P('std::vector< int >', 'a')], [P('int16_t', 'a'), P('int&', 'b', O)], [P('PyObject*', 'a', transfer_ownership=True)]]
        for r in rs:
            for ps in pss:
                for ub in (None, True, False):
                    for th in ([], ['Err'], ['Err2', 'Err']):
                        if not thorough and rng.random() < .6:
                            continue
                        kind = rng.choice(['func', 'method', 'static', 'virtual', 'ctor', 'ovl', 'asctor'])
                        n = grid.uid()
                        if kind == 'func':
                            m.func('f%d' % n, r, ps, throws=th, unblock=ub)
                            continue
                        if kind == 'ovl':
                            m.func('f%d' % n, r, ps, throws=th, unblock=ub)
                            m.func('f%d' % n, R('int'), [P('double', 'q'), P('double', 'q2')], throws=th, unblock=ub)
                            continue
                        c = m.cls('VC%d' % n, subclassable=rng.random() < .5)
                        if kind == 'asctor':
                            c.subclassable = False
                            m.lines[-1] = m.lines[-1].replace(', allow_subclassing=True', '')
                            qs = [p for p in ps if not p.dir & O]
                            m.asctor(c, 'mk%d' % n, qs, unblock=ub)
                            if rng.random() < .5:
                                m.asctor(c, 'mk%d' % grid.uid(), qs + [P('double', 'q')], unblock=ub)
                            continue
                        if kind == 'ctor':
                            qs = [p for p in ps if not p.dir & O]
                            m.ctor(c, qs, throws=th, unblock=ub)
                            if rng.random() < .5:
                                m.ctor(c, qs + [P('double', 'q')], throws=th, unblock=ub)
                            continue
                        m.ctor(c)
                        if kind == 'virtual' and r.form == 'ref':
                            kind = 'method'
                        m.method(c, 'g%d' % n, r, ps, virtual=kind == 'virtual', static=kind == 'static', throws=th if kind != 'virtual' else [], unblock=ub)
        # deprecation warnings and custodian/ward relations use Python, too
        vp, kp, nk = P('V *', 'a', transfer_ownership=False), P('Sub *', 'b', transfer_ownership=False), P('V *', 'c', transfer_ownership=False, null_ok=True)
        for ub in (True, None):
            for dep in (None, 'old', True):
                out.append(m)
                m = grid.base_module()
                m.unblock_default = bool(default)
                if default:
                    m.lines.insert(m.lines.index("mod = Module('m')"), 'settings.unblock_threads = True')
                for (ps, wards) in (([vp, kp], [(1, 2, None)]), ([vp, kp], [(2, 1, True)]), ([vp, nk, kp], [(3, 1, False), (1, 2, None)]), ([vp], [(-1, 1, None)]), ([], []), ([nk, vp], [(1, 2, None)])):
                    r = R('Sub *', caller_owns_return=True) if any(-1 in x[:2] for x in wards) else rng.choice([R('int'), R('void'), R('K')])
                    th = rng.choice([[], ['Err']])
                    m.func('f%d' % grid.uid(), r, ps, unblock=ub, wards=wards, deprecated=dep, throws=th)
                    c = m.cls('VC%d' % grid.uid(), subclassable=True)
                    w2 = wards + ([(0, 1, None)] if ps else [])
                    m.ctor(c, ps, unblock=ub, wards=[x for x in w2 if -1 not in x[:2]], deprecated=dep, throws=th)
                    m.method(c, 'g%d' % grid.uid(), r, ps, unblock=ub, wards=w2, deprecated=dep, throws=th)
                    m.method(c, 'g%d' % grid.uid(), r, ps, unblock=ub, wards=w2, deprecated=dep, throws=th, visibility='protected')
        out.append(m)
    return out


def run(S):
    mods = modules(S.rng, S.thorough) + grid.all_modules(S.rng, S.thorough)
    emitted.sweep(S, [emitted.problems(('gil',), 'interpreter lock'), balance, released, proxies], mods)
