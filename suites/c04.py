"""C04 order of results: on every successful path of every emitted wrapper the k-th value handed to Python
comes from the k-th of [return value] + output parameters; the k-th value unpacked from an override's result
goes to the k-th of the same list; the k-th argument given to an override comes from the k-th input parameter."""
import re
from . import emitted, grid
from .corpus import targets, Prov, origin_kids, P, R, I, O, IO
from .emitted import norm, execs, anon
from minic.sym import show

RULE = 'wrappers with at least two results, or none; proxies with at least one result'


def results(s):
    out = [('ret', None)] if s.ret is not None and not s.ret.void else []
    return out + [('param', k) for k, p in enumerate(s.params) if p.dir & O and not (p.cls and p.dir & I)]


def name(s, r):
    return 'the return value' if r[0] == 'ret' else 'parameter %s' % s.params[r[1]].name


def sources(p, t, r, heap):
    """provenance tags of one expected result on this path"""
    if r[0] == 'ret':
        return set([('ret',)])
    tags = set([('out', r[1])])
    pr = Prov(p, [t])
    tags |= set(x for x in pr.walk(t.args[r[1]], dict(heap)) if x[0] == 'obj')
    return tags


def forward(c, g, ws):
    for w in ws:
        s = w.spec
        if w.role not in ('func', 'method'):
            continue
        want = results(s)
        done = 0
        if len(want) != 1:
            c.case((w.role, str(s.params), str(s.ret)), repr(s))
        for p in w.ex.paths:
            ts = targets(s, p)
            if not ts or p.end != 'return' or p.ret is None or p.ret.text in ('NULL', '0'):
                continue
            if any(e.kind == 'throw' for e in p.events):
                continue
            if len(ts) != 1:
                continue
            t = ts[0]
            c.count('obligations')
            bs = [e for e in p.events if e.kind == 'call' and e.name == 'Py_BuildValue' and e.seq > t.seq]
            if not want:
                ok = is_none(p.ret)
                done += 1
                if ok:
                    c.count('discharged')
                else:
                    c.fail('none:%s' % s.kind, '%r: a call without results does not return None' % s, 'returned: %s' % p.ret.text, w.func)
                continue
            b = [e for e in bs if getattr(e, 'result', None) is p.ret]
            if not b:
                c.fail('notbuilt:%s' % s.kind, '%r: the results are not what is returned' % s, 'returned: %s' % p.ret.text, w.func)
                continue
            b = b[0]
            done += 1
            items = b.items
            if len(items) != len(want):
                c.fail('count:%s' % s.kind, '%r: %d values returned for %d results' % (s, len(items), len(want)), b.fmt, w.func)
                continue
            if ('(' in b.fmt) and not (len(want) > 1 and re.match(r'\([^()]*\)$', b.fmt)):
                c.fail('shape:%s' % s.kind, '%r: the results are nested' % s, b.fmt, w.func)
                continue
            prov = [set().union(*[Prov(p, [t]).walk(v, b.heap) | elements(w.ex, v, s, t) for v in vs]) for (u, vs) in items]
            exp = [sources(p, t, r, b.heap) for r in want]
            bad = None
            for i, (u, vs) in enumerate(items):
                if not prov[i] & exp[i]:
                    if want[i][0] == 'ret' and vs and isnull(vs[0]):
                        continue        # a NULL pointer, already known to be the result on this path
                    bad = i
                    break
                for j in range(len(want)):
                    if j != i and prov[i] & exp[j]:
                        bad = i
            if bad is None:
                c.count('discharged')
            else:
                c.fail('order:%s:%s' % (s.kind, anon(name(s, want[bad]))), '%r: result %d is not %s' % (s, bad, name(s, want[bad])),
                       'unit %s of "%s", values %s; made of %r, expected %r; path decisions %r' % (items[bad][0], b.fmt, [v.text for v in items[bad][1]], prov[bad], exp[bad], p.conds), w.func)
        c.count('obligations')
        if done:
            c.count('discharged')
        else:
            c.fail('never:%s' % s.kind, '%r: no path returns the results' % (s,), '', w.func)


def elements(ex, v, s, t):
    """what the elements of a list made in a loop are made of (the iteration is on a path of its own)"""
    out = set()
    if not v.text.startswith('PyList_New'):
        return out
    for q in ex.paths:
        for e in q.events:
            if e.kind == 'call' and e.name in ('PyList_SET_ITEM', 'PyList_SetItem', 'PyList_Append') and e.args[0].id == v.id and e.args[0].text == v.text:
                t2 = [x for x in targets(s, q) if x.seq == t.seq]
                if t2:
                    seen = set()
                    out |= Prov(q, t2).walk(e.args[-1], q.heap, seen)
                    out |= set(('out', k) for k, a in enumerate(t2[0].args) if a.id in seen)
    return out


def is_none(v):
    return 'Py_None' in v.text


def isnull(v):
    return v.text.strip() in ('NULL', '0', 'Py_None') or 'Py_None' in v.text


def virtual(c, g, ws):
    for w in ws:
        s = w.spec
        if w.role != 'virtual':
            continue
        want = results(s)
        ins = [k for k, p in enumerate(s.params) if p.dir & I]
        names = [nm for ty, nm in w.func.params]
        c.case(('virtual', str(s.params), str(s.ret)), repr(s))
        done = 0
        for p in w.ex.paths:
            cm = [e for e in p.events if e.kind == 'call' and e.name == 'PyObject_CallMethod']
            if not cm:
                continue
            e = cm[0]
            # arguments
            if targets(s, p):
                continue        # falls back to the C++ implementation
            c.count('obligations')
            extra = [k for k, q in enumerate(s.params) if q.dir == O and (q.cls or 'std::' in q.ctype)]      # output objects may be given to the override to be filled in
            inn = sorted(ins + extra) if len(e.items) > len(ins) else ins
            while len(inn) > len(e.items) and [k for k in inn if k in extra and not s.params[k].cls]:
                inn = [k for k in inn if k != [k for k in inn if k in extra and not s.params[k].cls][-1]]
            if len(e.items) != len(inn):
                c.fail('args:count', '%r: %d arguments given to the override for %d inputs' % (s, len(e.items), len(inn)), e.fmt, w.func)
                continue
            bad = None
            for (u, vs), k in zip(e.items, inn):
                got = set().union(*[Prov(p).walk(v, e.heap) for v in vs])
                pn = set(x[1] for x in got if x[0] == 'param')
                if k in extra and not pn:
                    continue
                if names[k] not in pn or pn & set(names) - set([names[k]]):
                    bad = (k, pn)
                    break
            if bad is None:
                c.count('discharged')
            else:
                c.fail('args:%s' % s.params[bad[0]], '%r: the override is not given parameter %s in its place' % (s, s.params[bad[0]].name), 'made of %r in "%s"' % (bad[1], e.fmt), w.func)
            # results
            pe = [x for x in p.events if x.kind == 'call' and x.name == 'PyArg_ParseTuple' and x.seq > e.seq]
            real = [r for r in want if r[0] == 'ret' or not s.params[r[1]].cls]
            if not real:
                if pe:
                    c.fail('parse:none', '%r: an override without results is unpacked' % s, pe[-1].argtext, w.func)
                done += 1
                continue
            if not pe or not getattr(pe[-1], 'ok', False) or p.end not in ('return', 'fall'):
                continue
            if any(x.kind == 'call' and (x.name.startswith('PyErr_') and x.name not in ('PyErr_Clear', 'PyErr_Occurred')) and x.seq > pe[-1].seq for x in p.events):
                continue
            pe = pe[-1]
            done += 1
            c.count('obligations')
            if len(pe.parsed) != len(real):
                c.fail('results:count', '%r: %d values unpacked from the override for %d results' % (s, len(pe.parsed), len(real)), pe.fmt, w.func)
                continue
            owner = {}
            for i, vs in enumerate(pe.parsed):
                for v in vs:
                    owner[v.id] = i
            bad = None
            for i, r in enumerate(real):
                if r[0] == 'ret':
                    v = p.ret
                else:
                    nm = names[r[1]]
                    t = norm(s.params[r[1]].ctype)
                    par = p.params.get(nm)
                    if t.endswith('*'):
                        v = p.heap.get(('*', par.id)) if par is not None else None
                    else:
                        cl = p.scopes[0].get(nm)
                        v = cl.val if cl is not None else None
                got = Prov(p).walk(v, p.heap) if v is not None else set()
                idx = set(owner.get(x[1]) for x in got if x[0] == 'parsed')
                if idx != set([i]):
                    bad = (r, i, idx, v)
                    break
            if bad is None:
                c.count('discharged')
            else:
                c.fail('results:%s' % ('return' if bad[0][0] == 'ret' else 'param'), '%r: %s does not get value %d of the result of the override' % (s, name(s, bad[0]), bad[1]),
                       'made of values %r (%s); "%s"' % (bad[2], bad[3].text if bad[3] is not None else None, pe.fmt), w.func)
        c.count('obligations')
        if done:
            c.count('discharged')
        else:
            c.fail('never:virtual', '%r: no path hands the results back' % (s,), '', w.func)


def fields(p, v, heap, seen):
    """member names a value is read through"""
    out = set()
    if v is None or v.id in seen:
        return out
    seen.add(v.id)
    if v.origin and v.origin[0] == 'field':
        out.add(v.origin[2])
    kids = list(origin_kids(v))
    if v.origin and v.origin[0] == 'call':
        kids += list(v.origin[2].args) + [v.origin[2].base]
    if v.addr is not None and v.addr[0] == 'var':
        kids.append(v.addr[1].val)
    elif v.addr is not None and v.addr[0] == 'field':
        out.add(v.addr[2])
        kids.append(v.addr[1])
    for k, x in heap.items():
        if isinstance(k, tuple) and len(k) == 2 and k == (v.id, 'obj'):
            kids.append(x)
    for x in kids:
        out |= fields(p, x, heap, seen)
    return out


def iterators(c, g, ws):
    """iterating a map gives (key, value) pairs"""
    kinds = dict((n, k) for (n, vt, k) in g.mod.containers)
    for f, st, ex in execs(g):
        if not f.name.endswith('__tp_iternext'):
            continue
        for p in ex.paths:
            bs = [e for e in p.events if e.kind == 'call' and e.name == 'Py_BuildValue']
            if not bs or p.end != 'return':
                continue
            b = bs[-1]
            got = [set().union(*[fields(p, v, b.heap, set()) for v in vs]) & set(['first', 'second']) for (u, vs) in b.items]
            pair = any(got)
            c.count('obligations')
            c.case(('iter', anon(f.name)), f.name)
            if got == [set(['first']), set(['second'])] or not pair and len(got) == 1:
                c.count('discharged')
            else:
                c.fail('iterate:%s' % anon(f.name), '%s: an element of a map is not handed out as (key, value)' % f.name, '%r "%s"' % (got, b.fmt), f)


def map_modules():
    out = []
    ts = ['int', 'bool', 'char', 'char*', 'std::string', 'double', 'float', 'uint8_t', 'int16_t', 'unsigned long long', 'long', 'E', 'K', 'ns::N', 'Glib::ustring']
    m = grid.base_module(vr=False)
    for i, a in enumerate(ts):
        for b in (ts[(i + 1) % len(ts)], ts[(i + 6) % len(ts)]):
            m.container('std::map< %s, %s >' % (a, b), '(%r, %r)' % (a, b), 'map')
    out.append(m)
    return out


def run(S):
    mods = map_modules() + grid.all_modules(S.rng, S.thorough)
    emitted.sweep(S, [forward, virtual, iterators], mods, scripts=False)
