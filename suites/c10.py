"""C10 8- and 16-bit integers: on every path, for every Python integer, the value that reaches the C
variable is the Python one, or the conversion fails; and no value of the C type is refused."""
import re
import z3
from . import emitted, grid
from .corpus import targets, P, R, I, O, IO
from .emitted import norm, strip_const, base_int, irange, execs, anon

RULE = 'wrappers converting at least one 8- or 16-bit integer from Python'


def small(ctype):
    """(bits, signed) of an 8/16-bit integer type, through one pointer or reference"""
    t = strip_const(norm(ctype)).rstrip('*&').strip()
    if t in ('bool', 'char'):
        return None
    b = base_int(t)
    return b if b and b[0] <= 16 else None


class Z(object):
    def __init__(self, path):
        self.s = z3.Solver()
        self.s.set('timeout', 5000)
        self.s.add(*path.zpc)

        self.zpc = list(path.zpc)

    def caused(self, pzs):
        """the path was taken because of the value of one of these integers, all within their C types:
        some decision on them is not settled by the types alone"""
        names = set(str(z) for z, b in pzs)
        rng = z3.And(*[inrange(z, b) for z, b in pzs])
        if self.s.check(rng) == z3.unsat:
            return False
        for c in self.zpc:
            if names & set(map(str, consts(c))):
                t = z3.Solver()
                t.set('timeout', 5000)
                t.add(rng, z3.Not(c))
                if t.check() != z3.unsat:
                    return True
        return False

    def unsat(self, *cs):
        return self.s.check(*[c if z3.is_expr(c) else z3.BoolVal(c) for c in cs]) == z3.unsat


def consts(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def wrap(z, b):
    lo, hi = irange(*b)
    return (z - lo) % z3.IntVal(1 << b[0]) + lo


def inrange(z, b):
    lo, hi = irange(*b)
    return z3.And(z >= lo, z <= hi)


def parses(p):
    return [e for e in p.events if e.kind == 'call' and e.name.startswith('PyArg_Parse')]


def pyint(v):
    """the Python integer a parsed value was made of (None: not one)"""
    o = v.origin
    return o[2] if o and o[0] == 'parsed' and len(o) > 2 else None


def value(e, k):
    v = e.args[k]
    pt = getattr(e, 'pointees', None)
    if v.z is None and pt and pt[k] is not None:
        return pt[k]
    return v


def forward(c, g, ws):
    for w in ws:
        s = w.spec
        if w.role == 'virtual':
            virtual(c, g, w)
            continue
        ins = [(k, p) for k, p in enumerate(s.params) if p.dir & I]
        sm = [(i, k, small(p.ctype), p) for i, (k, p) in enumerate(ins) if small(p.ctype) and 'array_length' not in p.kw]
        if not sm:
            continue
        c.case((w.role, str(s.params), str(s.ret)), repr(s))
        reached = 0
        for p in w.ex.paths:
            pe = parses(p)
            if not pe or not getattr(pe[-1], 'ok', False):
                continue
            par, giv = pe[-1].parsed, pe[-1].given
            if len(par) != len(ins):
                c.fail('units:%s' % s.kind, '%r: %d units parsed for %d parameters' % (s, len(par), len(ins)), '', w.func)
                continue
            tg = targets(s, p)
            thrown = any(e.kind == 'throw' for e in p.events)
            zz = Z(p)
            if tg:
                reached += 1
                for e in tg:
                    for (i, k, b, q) in sm:
                        if not giv[i]:
                            continue
                        pz = pyint(par[i][0])
                        v = value(e, k)
                        c.count('obligations')
                        ok = pz is not None and v.z is not None and zz.unsat(z3.Or(wrap(v.z, b) != pz, z3.Not(inrange(pz, b))))
                        if ok:
                            c.count('discharged')
                        else:
                            c.fail('altered:%s:%s' % (s.kind, q), '%r: the value of parameter %s can differ from the Python integer' % (s, q.name),
                                   witness(zz, pz, v, b), w.func)
            elif not thrown:
                pzs = [(pyint(par[i][0]), b) for (i, k, b, q) in sm if giv[i]]
                c.count('obligations')
                if all(pz is not None for pz, b in pzs) and not zz.caused(pzs):
                    c.count('discharged')
                else:
                    c.fail('refused:%s:%s' % (s.kind, '+'.join(str(q) for (_, _, _, q) in sm)), '%r: integers of the C type can be refused' % (s,),
                           'path decisions: %r' % (p.conds,), w.func)
        c.count('obligations')
        if reached:
            c.count('discharged')
        else:
            c.fail('never:%s' % s.kind, '%r: the C++ call is never reached' % (s,), '', w.func)
        # what the conversion unit itself accepts
        units(c, w, [(i, b, q) for (i, k, b, q) in sm])


def units(c, w, sm):
    """the units accept every value of the C type (narrower units refuse, masks show up as altered values)"""
    from minic.capi import PARSE_RANGE, PARSE_MASK
    for p in w.ex.paths:
        pe = parses(p)
        if not pe or not getattr(pe[-1], 'items', None):
            continue
        for (i, b, q) in sm:
            if i >= len(pe[-1].items):
                continue
            u = pe[-1].items[i][0]
            lo, hi = irange(*b)
            c.count('obligations')
            if u in PARSE_MASK or u in PARSE_RANGE and irange(*PARSE_RANGE[u])[0] <= lo and irange(*PARSE_RANGE[u])[1] >= hi:
                c.count('discharged')
            else:
                c.fail('unit:%s:%s' % (w.spec.kind, q), '%r: conversion unit "%s" does not cover the type of %s' % (w.spec, u, q), '', w.func)
        return


def witness(zz, pz, v, b):
    if pz is None or v.z is None:
        return 'no integer relation between the Python value and the argument (%s)' % (v.text,)
    if zz.s.check(z3.Or(wrap(v.z, b) != pz, z3.Not(inrange(pz, b)))) == z3.sat:
        m = zz.s.model()
        return 'Python integer %s arrives as %s' % (m.eval(pz, True), m.eval(wrap(v.z, b), True))
    return ''


def inplace(p):
    """class objects are modified in place, not returned"""
    return p.cls is not None


def virtual(c, g, w):
    s = w.spec
    names = dict((q.name, nm) for q, (ty, nm) in zip(s.params, w.func.params))   # positions, not names: the generator may rename
    outs = [(p, small(p.ctype)) for p in s.params if p.dir & O and not inplace(p)]
    items = ([('return', s.ret, small(s.ret.ctype))] if not s.ret.void else []) + [(p.name, p, b) for p, b in outs]
    sm = [(i, nm, q, b) for i, (nm, q, b) in enumerate(items) if b]
    if not sm:
        return
    c.case(('virtual', str(s.params), str(s.ret)), repr(s))
    done = 0
    for p in w.ex.paths:
        if p.end not in ('return', 'fall'):
            continue
        pe = [e for e in parses(p) if e.name == 'PyArg_ParseTuple']
        if not pe or not getattr(pe[-1], 'ok', False):
            continue
        par = pe[-1].parsed
        if len(par) != len(items):
            c.fail('units:virtual', '%r: %d units parsed for %d results' % (s, len(par), len(items)), '', w.func)
            continue
        errs = [e for e in p.events if e.kind == 'call' and e.name in ('PyErr_Print', 'PyErr_SetString', 'PyErr_Format') and e.seq > pe[-1].seq]
        zz = Z(p)
        pzs = [(pyint(par[i][0]), b) for (i, nm, q, b) in sm]
        c.count('obligations')
        if errs:
            if not zz.caused([(pz, b) for pz, b in pzs if pz is not None]):
                c.count('discharged')
            else:
                c.fail('refused:virtual:%s' % '+'.join(str(q) for (_, _, q, _) in sm), '%r: results within the C type can be refused' % (s,), 'path decisions: %r' % (p.conds,), w.func)
            continue
        done += 1
        bad = None
        for (i, nm, q, b) in sm:
            pz = pyint(par[i][0])
            v = p.ret if nm == 'return' else cell(p, names.get(nm, nm), q)
            if pz is None or v is None or v.z is None or not zz.unsat(z3.Or(wrap(v.z, b) != pz, z3.Not(inrange(pz, b)))):
                bad = (nm, q, witness(zz, pz, v, b) if v is not None else 'never stored')
                c.fail('altered:virtual:%s:%s' % ('return' if nm == 'return' else 'param', q), '%r: the C++ side can get another value than Python returned for %s' % (s, nm), bad[2], w.func)
        if not bad:
            c.count('discharged')
    c.count('obligations')
    if done:
        c.count('discharged')
    else:
        c.fail('never:virtual', '%r: no path returns the parsed result' % (s,), '', w.func)


def cell(p, nm, q):
    par = p.params.get(nm)
    if norm(q.ctype).endswith('*'):
        return p.heap.get(('*', par.id)) if par is not None else None
    cl = p.scopes[0].get(nm)
    return cl.val if cl is not None else None


def generic(c, g, ws):
    """nowhere in the emitted code does a conversion to an 8- or 16-bit integer change the value"""
    for f, st, ex in execs(g):
        n = ex.checked.get('narrow', 0)
        c.count('emitted functions')
        if not n:
            continue
        c.count('obligations', n)
        bad = 0
        for pr in ex.problems:
            if pr.kind == 'narrow':
                bad += 1
                c.fail('narrow:%s' % anon(f.name), '%s, line %s: %s' % (f.name, pr.line, pr.msg), '', f)
        c.count('discharged', n - min(n, bad))


def converters(c, g, ws):
    """setters and element converters: what is stored is the Python integer"""
    atts = {}
    for a in g.mod.attrs:
        if small(a.ctype) and not a.const:
            atts[a.name] = small(a.ctype)
            if a.setter:
                atts[a.setter] = small(a.ctype)
    for f, st, ex in execs(g):
        m = re.match(r'_wrap_convert_py2c__(\w+)$', f.name)
        params = dict((nm, ty) for ty, nm in f.params)
        isset = params.keys() >= set(['self', 'value', 'closure']) or re.search(r'__set_|_set_', f.name)
        if not m and not isset:
            continue
        stored = 0
        rel = False
        for p in ex.paths:
            pe = parses(p)
            if not pe or not getattr(pe[-1], 'ok', False) or not pe[-1].parsed or not pe[-1].parsed[0]:
                continue
            pz = pyint(pe[-1].parsed[0][0])
            zz = Z(p)
            done = False
            b = None
            for e in p.events:
                if e.kind == 'assign' and e.seq > pe[-1].seq and e.lv[0] in ('field', 'deref', 'glob'):
                    if m:
                        t = params.get('address') or ''
                        bb = small(t)
                        if e.lv[0] != 'deref' or e.lv[1].text != 'address':
                            continue
                    else:
                        nm = e.lv[2] if e.lv[0] == 'field' else e.lv[1].split('::')[-1] if e.lv[0] == 'glob' else None
                        bb = atts.get(nm)
                    if bb is None:
                        continue
                    b, done, v = bb, True, e.value
                elif e.kind == 'call' and not e.api and e.name.split('::')[-1] in atts and e.seq > pe[-1].seq:
                    b, done, v = atts[e.name.split('::')[-1]], True, e.args[-1]
                else:
                    continue
                rel = True
                stored += 1
                c.count('obligations')
                if pz is not None and v.z is not None and zz.unsat(z3.Or(wrap(v.z, b) != pz, z3.Not(inrange(pz, b)))):
                    c.count('discharged')
                else:
                    c.fail('altered:stored:%s' % anon(f.name), '%s: the stored value can differ from the Python integer' % f.name, witness(zz, pz, v, b) if v.z is not None else '', f)
        if rel:
            c.case(('stored', anon(f.name)), f.name)
            bt = small(params['address']) if m else None
            for p in ex.paths:
                pe = parses(p)
                if not pe or not getattr(pe[-1], 'ok', False) or not pe[-1].parsed or not pe[-1].parsed[0]:
                    continue
                pz = pyint(pe[-1].parsed[0][0])
                wrote = any(e.kind == 'assign' and e.lv[0] in ('field', 'deref', 'glob') and e.seq > pe[-1].seq or
                            e.kind == 'call' and not e.api and e.seq > pe[-1].seq for e in p.events)
                bb = bt or b_of(atts, ex)
                if wrote or bb is None or pz is None:
                    continue
                c.count('obligations')
                if not Z(p).caused([(pz, bb)]):
                    c.count('discharged')
                else:
                    c.fail('refused:stored:%s' % anon(f.name), '%s: integers of the C type can be refused' % f.name, 'path decisions: %r' % (p.conds,), f)


def b_of(atts, ex):
    for p in ex.paths:
        for e in p.events:
            if e.kind == 'assign' and e.lv[0] == 'field' and e.lv[2] in atts:
                return atts[e.lv[2]]
            if e.kind == 'assign' and e.lv[0] == 'glob' and e.lv[1].split('::')[-1] in atts:
                return atts[e.lv[1].split('::')[-1]]
            if e.kind == 'call' and not e.api and e.name.split('::')[-1] in atts:
                return atts[e.name.split('::')[-1]]
    return None


def modules(rng, thorough):
    """every small type in every position; also several at once"""
    out = []
    vals = list(grid.SMALL)
    refs = [t for t in grid.INT_REFS if small(t)] + ['short unsigned int&', 'unsigned short int&', 'short int&', 'char unsigned&', 'char signed&']
    ptrs = [t for t in grid.INT_PTRS if small(t)]
    ps = [P(t, 'x') for t in vals] + [P(t, 'x', default='7') for t in vals]
    ps += [P(t, 'x', d) for t in refs for d in (I, O, IO)] + [P(t, 'x', d) for t in ptrs for d in (I, O, IO)]
    ps += [P(t + ' const', 'x') for t in ('uint8_t', 'int16_t')] + [P('const uint16_t &', 'x'), P('int8_t const &', 'x')]
    rets = [R('void'), R('int')] + [R(t) for t in vals]
    for ch in grid.chunks(ps, 12):
        m = grid.base_module()
        for p in ch:
            more = [q.rename('y') for q in rng.sample(ps, 2) if q.dir & I] if rng.random() < .5 else []
            qs = sorted([p] + more[:1], key=lambda q: q.default is not None)
            m.func('f%d' % grid.uid(), rng.choice(rets), qs)
            m.func('f%d' % grid.uid(), rng.choice(rets), [p] if p.dir & O or not more else more[:1], throws=['Err'], unblock=True)
            c = m.cls('VC%d' % grid.uid(), subclassable=True)
            m.ctor(c, [q for q in qs if not q.dir & O])
            m.ctor(c, [P('double', 'd'), P('uint8_t', 'z')])
            m.method(c, 'g%d' % grid.uid(), rng.choice(rets), qs)
            m.method(c, 'g%d' % grid.uid(), rng.choice(rets), [P(q.ctype, q.name, q.d, **q.kw) for q in qs], virtual=True)
            m.method(c, 'g%d' % grid.uid(), rng.choice(rets), qs, static=True)
            m.method(c, 'g%d' % grid.uid(), R('int'), qs, visibility='protected')
        out.append(m)
    m = grid.base_module()
    c = m.cls('VC%d' % grid.uid(), subclassable=True)
    m.ctor(c)
    for r in rets:
        m.method(c, 'g%d' % grid.uid(), r, [], virtual=True)
        m.method(c, 'g%d' % grid.uid(), r, [P('uint16_t&', 'x', IO), P('int8_t&', 'y', O)], virtual=True)
        m.method(c, 'g%d' % grid.uid(), r, [P('int', 'x')], virtual=True, pure=True)
    out.append(m)
    return out


def run(S):
    mods = modules(S.rng, S.thorough) + grid.all_modules(S.rng, S.thorough)
    emitted.sweep(S, [forward, generic, converters], mods)
