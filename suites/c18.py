"""C18 custodians and wards: obligations on every path of every emitted wrapper with declared relations,
and of every other wrapper (no relation)."""
import re
import itertools
from . import emitted, grid
from .corpus import targets, Mod, P, R, Fn, I, O, IO
from .emitted import norm, execs, anon
from .c04 import isnull

RULE = 'wrappers with at least one relation'


def relations(s):
    """(custodian, ward, post) in the order declared"""
    out = []
    raw = [(p.kw['custodian'], k + 1, None) for k, p in enumerate(s.params) if p.kw.get('custodian') is not None]
    if s.ret is not None and s.ret.kw.get('custodian') is not None:
        raw.append((s.ret.kw['custodian'], -1, None))
    if s.ret is not None and s.ret.kw.get('return_internal_reference'):
        raw.append((-1, 0, None))
    raw += list(s.wards)
    for (c, w, post) in raw:
        if -1 in (c, w):
            assert post is None or post
            post = True
        out.append((c, w, bool(post)))
    return out


def params_of(p, s):
    """python objects of the class parameters on this path: parameter number -> value (None: not given)"""
    out = {}
    ev = [e for e in p.events if e.kind == 'call' and e.name.startswith('PyArg_ParseTuple')]
    if not ev:
        return out
    e = ev[-1]
    names = [x.name for x in s.params if x.dir & I]
    kws = list(getattr(e, 'keywords', None) or names)
    for i, (unit, opt, args) in enumerate(e.items):
        if i < len(kws) and kws[i] in names and args:
            k = [j for j, x in enumerate(s.params) if x.name == kws[i]][0]
            dst = args[-1]
            if dst.addr is not None and dst.addr[0] == 'var':
                out[k + 1] = dst.addr[1].val
    return out


def returned(p):
    if p.ret is None:
        return None
    for e in p.events:
        if e.kind == 'call' and e.name == 'Py_BuildValue' and getattr(e, 'result', None) is p.ret:
            return e.items[0][1][0] if e.items and e.items[0][1] else None
    return p.ret


def attaches(p):
    """the attach sequences of the path: (custodian value, list value, [appends], [contains], first event)"""
    out = []
    for e in p.events:
        if e.kind != 'call':
            continue
        if e.name in ('PyObject_GetAttrString', 'PyObject_GetAttr') and any('"__wards__"' in t for t in e.argtext):
            out.append(dict(cust=e.args[0], got=e.result, lists=[e.result.id], appends=[], contains=[], sets=[], ev=e))
        elif e.name == 'PyList_New' and out and not out[-1]['appends'] and not out[-1]['contains']:
            out[-1]['lists'] = [e.result.id]
            out[-1]['new'] = e.result
        elif e.name == 'PyObject_SetAttrString' and '"__wards__"' in e.argtext[1]:
            if out:
                out[-1]['sets'].append(e)
            else:
                out.append(dict(cust=e.args[0], lists=[], appends=[], contains=[], sets=[e], ev=e))
        elif e.name in ('PyList_Append', 'PyList_Insert') or e.name == 'PySequence_Contains':
            for a in out:
                if e.args[0].id in a['lists']:
                    a['appends' if e.name != 'PySequence_Contains' else 'contains'].append(e)
    return out


def same(a, b):
    return a is not None and b is not None and (a is b or a.id == b.id and a.id != 0)


def check(c, g, ws):
    linked = set()
    for w in ws:
        s = w.spec
        linked.add(id(w.func))
        rel = relations(s) if w.role != 'virtual' else []
        if not rel:
            continue
        c.case((s.kind, str(rel), str(s.params), str(s.ret)), '%r relations %r' % (s, rel))
        done = set()
        self_name = w.func.params[0][1] if w.func.params else None
        for p in w.ex.paths:
            at = attaches(p)
            ts = targets(s, p)
            ok_exit = p.end == 'return' and not any(e.kind == 'throw' for e in p.events)
            seq = ts[0].seq if ts else None
            ps = params_of(p, s)
            expected = []
            for r in rel:
                cu, wa, post = r
                if seq is None or post and not ok_exit:
                    continue
                vals = []
                for k in (cu, wa):
                    if k == -1:
                        vals.append(returned(p))
                    elif k == 0:
                        vals.append('self')
                    else:
                        vals.append(ps.get(k))
                expected.append((r, vals))
            used = set()
            for (r, vals) in expected:
                cu, wa, post = r
                cv, wv = vals
                c.count('obligations')
                cand = []
                for i, a in enumerate(at):
                    if i in used:
                        continue
                    if (a['ev'].seq > seq) != post:
                        continue
                    if not is_obj(cv, a['cust'], self_name, p):
                        continue
                    objs = [e.args[1] for e in a['appends'] + a['contains']]
                    if objs and not all(is_obj(wv, x, self_name, p) for x in objs):
                        continue
                    cand.append(i)
                absent = cv is None or cv != 'self' and (isnull(cv) or is_none(p, cv, s, cu))
                if absent:
                    # the custodian does not exist on this path: nothing may be bound to it
                    if cand:
                        used.add(cand[0])
                        c.fail('absent-custodian:%s' % s.kind, '%r: relation %r uses the custodian although there is none (NULL or None)' % (s, r),
                               'path decisions: %r' % (p.conds,), w.func)
                    else:
                        c.count('discharged')
                    continue
                if not cand:
                    c.fail('missing:%s:%s' % (s.kind, 'post' if post else 'pre'),
                           '%r: relation %r is not established %s the call' % (s, r, 'after' if post else 'before'),
                           'path decisions: %r\nattached: %r' % (p.conds, [(a['cust'].text, [x.argtext for x in a['appends'] + a['contains']], a['ev'].seq, seq) for a in at]), w.func)
                    continue
                a = at[cand[0]]
                used.add(cand[0])
                pr = whole(a, wv, self_name, p)
                if pr:
                    c.fail('incomplete:%s:%s' % (s.kind, anon(pr)), '%r: relation %r: %s' % (s, r, pr), 'path decisions: %r' % (p.conds,), w.func)
                    continue
                c.count('discharged')
                if a['appends']:
                    done.add(r)
                elif a['contains']:
                    # the ward is left out because an equal object, not the ward itself, is kept already
                    c.fail('membership-by-equality', '%r: relation %r: the ward is not kept when the custodian already keeps another object that compares equal' % (s, r),
                           'path decisions: %r' % (p.conds,), w.func)
            extra = [i for i in range(len(at)) if i not in used]
            if seq is None:
                # the call was not reached: relations established before are harmless
                extra = [i for i in extra if not any(not r[2] and is_obj(v, at[i]['cust'], self_name, p) for r in rel for v in [('self' if r[0] == 0 else ps.get(r[0]))])]
            elif not ok_exit:
                # thrown, or an error after the call: relations of the later part may already exist
                extra = [i for i in extra if not (at[i]['ev'].seq > seq and any(r[2] for r in rel))]
            c.count('obligations')
            if extra:
                c.fail('extra:%s' % s.kind, '%r: %d relations established that were not declared' % (s, len(extra)),
                       '%r\npath decisions: %r' % ([(at[i]['cust'].text, [x.argtext for x in at[i]['appends']]) for i in extra], p.conds), w.func)
            else:
                c.count('discharged')
        for r in rel:
            c.count('obligations')
            if r in done:
                c.count('discharged')
            else:
                c.fail('never:%s' % s.kind, '%r: relation %r: no path appends the ward' % (s, r), '', w.func)
    # no other function binds anything
    for f, st, ex in execs(g):
        if id(f) in linked and any(id(w.func) == id(f) and w.role != 'virtual' and relations(w.spec) for w in ws):
            continue
        if isinstance(g.mod, emitted.ScriptMod) or g.missing and re.search(r'_wrap', f.name):
            continue
        n = sum(len(attaches(p)) for p in ex.paths)
        c.count('obligations')
        if n:
            c.fail('undeclared:%s' % anon(f.name), '%s binds a ward although nothing was declared' % f.name, '', f)
        else:
            c.count('discharged')


def is_none(p, v, s, k):
    nm = s.params[k - 1].name if k > 0 else None
    for (text, taken, *rest) in p.conds:
        t = re.sub(r'\(\s*PyObject\s*\*\s*\)|[()\s]', '', text)
        if nm and taken is True and t == nm + '==Py_None':
            return True
        if nm and taken is False and t in (nm + '&&' + nm + '!=Py_None', nm + '!=Py_None', nm):
            return True
    return False


def is_obj(want, v, self_name, p):
    if want is None or v is None:
        return False
    if want == 'self':
        return bool(v.origin) and v.origin[0] == 'param' and v.origin[1] == self_name
    return same(want, v)


def whole(a, ward, self_name, p):
    """the sequence really stores the ward in the list the custodian holds"""
    if a.get('new') is not None:
        if len(a['sets']) != 1 or not same(a['sets'][0].args[2], a['new']) or not same(a['sets'][0].args[0], a['cust']):
            return 'the new list is not stored in the custodian'
    elif a['sets']:
        return 'the list found in the custodian is replaced'
    got = p.facts.get(a['got'].id) if a.get('got') is not None else None
    if a.get('new') is None and got is not True:
        return 'the list of the custodian may be missing'
    if a.get('new') is not None and got is not False:
        return 'the list found in the custodian is dropped'
    for e in a['contains']:
        if p.facts.get(e.result.id) is not (not a['appends']):
            return 'the ward is %s although it is %s there' % (('stored', 'already') if a['appends'] else ('not stored', 'not'))
    if len(a['appends']) > 1:
        return 'the ward is appended %d times' % len(a['appends'])
    if not a['appends'] and not a['contains']:
        if ward is not None and ward != 'self' and isnull(ward):
            return None
        # the ward was tested for NULL
        if any(t is False and '&&' in text and 'PySequence_Contains' in text for (text, t, *r) in p.conds):
            return None
        return 'the ward is not stored'
    if not a['appends']:
        # already there: decided by the test
        return None
    return None


# ---------------------------------------------------------------- corpus

def modules(rng, thorough):
    out = []
    n = [0]
    for reg in (None, "StdMapWrapperRegistry"):
        for kind in ('func', 'method', 'static', 'ctor', 'protected', 'nsfunc', 'ovl', 'virtual'):
            out += [one(rng, kind, reg, thorough)]
            if thorough:
                out += [one(rng, kind, reg, thorough) for i in range(6)]
            out += [combos(reg, kind)]
    return out


def combos(reg, kind):
    """every combination of the relations that options declare, with and without an explicit one"""
    m = grid.base_module(reg)
    w = m.cls('VC%d' % grid.uid(), subclassable=True)
    m.ctor(w)
    m.ctor(w, copy=True)
    hasself = kind in ('method', 'ctor', 'protected', 'virtual', 'ovl')
    for rc, rii, pc, ex in itertools.product((None, 0, 1), (False, True), (None, 0, -1), (None, (1, 0, None), (0, 1, True))):
        n = grid.uid()
        if not hasself and (rii or 0 in (rc, pc) or ex):
            continue
        if kind in ('ctor', 'virtual') and (rc is not None or rii or pc == -1):
            continue
        rel = [(rc, -1)] * (rc is not None) + [(-1, 0)] * rii + [(pc, 1)] * (pc is not None) + ([ex[:2]] if ex else [])
        if not rel or len(set(rel)) != len(rel) or len(rel) > 2 + (ex is None):
            continue
        ret = R('%s *' % w.full, **dict([('custodian', rc)] * (rc is not None) + ([('return_internal_reference', True)] if rii else [('reference_existing_object', True)])))
        if kind == 'virtual':
            ret = R('int')
        params = [P('%s *' % w.full, 'p%d' % n, transfer_ownership=False, **(dict(custodian=pc) if pc is not None else {}))]
        wards = [ex] if ex else []
        if kind in ('func', 'nsfunc'):
            m.func('f%d' % n, ret, params, wards=wards, ns='ns' if kind == 'nsfunc' else None)
            continue
        c = m.cls('VC%d' % n, subclassable=True)
        if kind == 'ctor':
            m.ctor(c, params, wards=wards)
            continue
        m.ctor(c)
        m.method(c, 'g%d' % n, ret, params, wards=wards, static=kind == 'static', virtual=kind == 'virtual', visibility='protected' if kind == 'protected' else 'public')
        if kind == 'ovl':
            m.method(c, 'g%d' % n, R('int'), [P('double', 'q%d' % n), P('double', 'r%d' % n)])
    # several relations between few objects
    for rel in ([(1, 2, True), (1, 3, True)], [(1, 2, False), (1, 3, False)], [(1, 3, None), (2, 3, None)], [(1, 2, True), (2, 1, True)], [(1, 2, None), (2, 3, True), (3, 1, False)]):
        n = grid.uid()
        params = [P('%s &' % w.full, 'p%d_%d' % (n, j)) for j in range(3)]
        if kind in ('func', 'nsfunc'):
            m.func('f%d' % n, R('void'), params, wards=rel, ns='ns' if kind == 'nsfunc' else None)
            continue
        c = m.cls('VC%d' % n, subclassable=True)
        if kind == 'ctor':
            m.ctor(c, params, wards=rel)
            continue
        m.ctor(c)
        m.method(c, 'g%d' % n, R('void'), params, wards=rel, static=kind == 'static', virtual=kind == 'virtual', visibility='protected' if kind == 'protected' else 'public')
    return m


def one(rng, kind, reg, thorough):
    m = grid.base_module(reg)
    cls = {}
    for t in ('W', 'Sub', 'R'):
        cls[t] = m.byname.get(t)
    w = m.cls('VC%d' % grid.uid(), subclassable=True)
    m.ctor(w)
    m.ctor(w, copy=True)
    for i in range(14 if not thorough else 40):
        n = grid.uid()
        params, k = [], rng.choice([1, 2, 2, 3, 4])
        for j in range(k):
            nm = 'p%d_%d' % (n, j)
            r = rng.random()
            if r < .45:
                params.append(P('%s *' % w.full, nm, transfer_ownership=False, **(dict(null_ok=True) if rng.random() < .15 and not any(q.kw.get('null_ok') for q in params) else {})))
            elif r < .6:
                params.append(P('Sub *', nm, transfer_ownership=False))
            elif r < .75:
                params.append(P('%s &' % w.full, nm))
            elif r < .85:
                params.append(P(w.full, nm))
            else:
                params.append(P(rng.choice(['int', 'double']), nm))
        if rng.random() < .25:
            params.append(P('%s *' % w.full, 'p%d_d' % n, default='NULL', transfer_ownership=False))
        objs = [j + 1 for j, p in enumerate(params) if p.cls or w.full in p.ctype]
        subs = [j for j in objs if w.full in params[j - 1].ctype]
        if rng.random() < .4 and kind not in ('ctor', 'virtual'):
            params.append(P('int *', 'p%d_o' % n, O))
        ret = None
        retobj = False
        if kind != 'ctor':
            r = rng.random()
            if r < .5:
                ret = R('%s *' % w.full, **rng.choice([dict(caller_owns_return=True), dict(reference_existing_object=True)]))
                retobj = True
            elif r < .6:
                ret = R(w.full)
                retobj = True
            else:
                ret = R(rng.choice(['void', 'int']))
            if kind == 'virtual' and retobj:
                ret = R('int')
                retobj = False
        hasself = kind in ('method', 'ctor', 'protected', 'virtual', 'ovl')
        custs = list(subs) + ([0] if hasself else []) + ([-1] if retobj else [])
        wards = list(objs) + ([0] if hasself else []) + ([-1] if retobj else [])
        rel = []
        for x in range(rng.choice([0, 1, 1, 2, 2]) if k < 4 else 1):
            cand = [(a, b) for a in custs for b in wards if a != b and not any(r[:2] == (a, b) for r in rel)]
            if cand:
                a, b = rng.choice(cand)
                rel.append((a, b, rng.choice([None, True, False]) if -1 not in (a, b) else rng.choice([None, True])))
        # some through the options of parameters and return value
        if len(rel) < 2 and rng.random() < .3 and objs and custs:
            b = rng.choice(objs)
            cc = [a for a in custs if a != b and not any(r[:2] == (a, b) for r in rel)]
            if cc and params[b - 1].ctype.endswith('*'):
                params[b - 1].kw['custodian'] = rng.choice(cc)
        if len(rel) < 2 and ret is not None and ret.ctype.endswith('*') and rng.random() < .3:
            cc = [a for a in custs if a != -1 and not any(r[:2] == (a, -1) for r in rel)]
            if cc:
                ret.kw['custodian'] = rng.choice(cc)
        if ret is not None and ret.kw.get('reference_existing_object') and hasself and rng.random() < .4 and not any(r[:2] == (-1, 0) for r in rel):
            ret = R(ret.ctype, return_internal_reference=True, **dict((k, v) for k, v in ret.kw.items() if k == 'custodian'))
        th = ['Err'] if rng.random() < .2 else []
        ub = rng.choice([None, True])
        if kind in ('func', 'nsfunc'):
            m.func('f%d' % n, ret, params, wards=rel, throws=th, unblock=ub, ns='ns' if kind == 'nsfunc' else None)
        elif kind == 'ovl':
            c = m.cls('VC%d' % n, subclassable=True)
            m.ctor(c)
            m.method(c, 'g%d' % n, ret, params, wards=rel, throws=th)
            m.method(c, 'g%d' % n, R('int'), [P('double', 'q%d' % n), P('double', 'r%d' % n)])
        elif kind == 'ctor':
            c = m.cls('VC%d' % n, subclassable=True)
            m.ctor(c, params, wards=rel, throws=th)
        else:
            c = m.cls('VC%d' % n, subclassable=True)
            m.ctor(c)
            m.method(c, 'g%d' % n, ret, params, wards=rel, throws=th, unblock=ub if kind != 'virtual' else None, static=kind == 'static', virtual=kind == 'virtual',
                     visibility='protected' if kind == 'protected' else 'public')
    return m


def refusals(S):
    """relations with the return value are always post-call"""
    from pybindgen import function, cppmethod, Function, retval, param
    from pybindgen.typehandlers.base import TypeConfigurationError
    for name, make in (('function', lambda: Function('f', retval('int'), [param('int', 'a'), param('int', 'b')])),
                       ('method', lambda: cppmethod.CppMethod('f', retval('int'), [param('int', 'a'), param('int', 'b')])),
                       ('constructor', lambda: cppmethod.CppConstructor([param('int', 'a'), param('int', 'b')]))):
        for (c, w, post) in itertools.product((-1, 0, 1, 2), (-1, 0, 1, 2), (None, True, False)):
            o = make()
            want = post if post is not None else (-1 in (c, w))
            must = -1 in (c, w) and post is False
            try:
                o.add_custodian_and_ward(c, w, postcall=post)
                got = list(o.custodians_and_wards)
                bad = must or [(a, b, bool(x)) for (a, b, x) in got] != [(c, w, bool(want))]
            except TypeConfigurationError:
                got = 'refused'
                bad = not must or o.custodians_and_wards
            S.case((name, c, w, post))
            S.check(not bad, 'declare:%s:%r' % (name, (c, w, post)), '%s.add_custodian_and_ward(%d, %d, postcall=%r) gives %r' % (name, c, w, post, got))


def run(S):
    refusals(S)
    emitted.sweep(S, [check], modules(S.rng, S.thorough) + grid.all_modules(S.rng, S.thorough))
