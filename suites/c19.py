"""C19 attributes: obligations on every attribute table and on every path of every emitted getter and setter."""
import re
from . import emitted, grid
from .corpus import Mod, P, R, Attr
from .c17 import cstr, cfun, show, null_row, ob
from .emitted import norm, anon

RULE = 'attribute tables; getters and setters of declared attributes'


def reach(p, v, seen=None, out=None):
    """all values the value is made of (through the wrapped object of a new wrapper)"""
    from .corpus import origin_kids
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if v is None or (v.id in seen and v.id != 0):
        return out
    seen.add(v.id)
    out.append(v)
    o = v.origin
    if o and o[0] == 'call':
        for a in list(o[2].args) + ([o[2].base] if o[2].base is not None else []):
            reach(p, a, seen, out)
    if o and o[0] == 'out':
        for a in list(o[1].args):
            reach(p, a, seen, out)
    for k, x in list(p.heap.items()):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == v.id and k[1] == 'obj' and hasattr(x, 'origin'):
            reach(p, x, seen, out)
    for x in origin_kids(v):
        reach(p, x, seen, out)
    if v.addr is not None:
        lv = v.addr
        if lv[0] == 'var':
            reach(p, lv[1].val, seen, out)
        elif lv[0] in ('field', 'deref', 'index', 'tmp'):
            reach(p, lv[1], seen, out)
    return out


def self_obj(v):
    """is this value the C++ object of the wrapper the accessor got"""
    t = re.sub(r'\(\s*[\w:]+\s*\*\s*\)|[()\s]', '', v.text)
    return t.lstrip('*') in ('self->obj', 'self->obj.get', 'self->obj->')


def member(v, a):
    """does the value name the member (or the result of the getter)"""
    o = v.origin
    if a.getter:
        return bool(o) and o[0] == 'call' and base(o[2].name) == a.getter and targs(o[2].name) == a.gt
    if a.static:
        return gname(v.text).lstrip('*&') == a.cls + '::' + a.name
    return bool(o) and o[0] == 'field' and o[2] == a.name and self_obj(o[1])


def lmember(lv, a):
    if a.static:
        return lv[0] == 'glob' and gname(lv[1]) == a.cls + '::' + a.name
    return lv[0] == 'field' and lv[2] == a.name and self_obj(lv[1])


def foreign(lv, a):
    """a store to something that outlives the accessor, other than the member"""
    if lv[0] == 'glob':
        return not lmember(lv, a)
    if lv[0] == 'field':
        return not lmember(lv, a) and (self_obj(lv[1]) or lv[1].text == 'self')
    return False


def base(n):
    return re.sub(r'<.*$', '', n).strip().split('::')[-1]


def targs(n):
    m = re.search(r'<(.*)>', n)
    return [x.strip() for x in m.group(1).split(',')] if m else []


def gname(t):
    return re.sub(r'[()\s]', '', t).lstrip(':')


def stores(p, a):
    """(sequence number, value) of each store to the member on the path; and foreign stores"""
    mine, other = [], []
    for e in p.events:
        if e.kind == 'assign':
            if a.setter is None and lmember(e.lv, a):
                mine.append((e.seq, e.value))
            elif foreign(e.lv, a):
                other.append(e)
        elif e.kind == 'call' and e.name.startswith('PyArg_Parse') and getattr(e, 'ok', False):
            for (u, g, nv) in getattr(e, 'values', []):
                if g.addr is not None and a.setter is None and lmember(g.addr, a):
                    mine.append((e.seq, nv))
                elif g.addr is not None and foreign(g.addr, a):
                    other.append(e)
        elif e.kind == 'call' and not e.api:
            if a.setter and base(e.name) == a.setter and targs(e.name) == a.st:
                mine.append((e.seq, e.args[-1] if e.args else None))
            elif not declared_call(e, a):
                other.append(e)
    return mine, other


OK_CALLS = re.compile(r'^(PyArg_|Py|_Py)|^(typeid|std::|boost::|c_str|size|begin|end|clear|get|insert|erase|find|operator)|(_wrap_convert_\w+)|__parent|^_wrap_|registry')


def declared_call(e, a):
    n = base(e.name)
    return bool(a.getter and n == a.getter) or bool(OK_CALLS.search(n)) or bool(OK_CALLS.search(e.name)) or not re.search(r'\d', n)


def python_value(p, v, value_name):
    """the value comes from what the setter was given"""
    for x in reach(p, v):
        o = x.origin
        if o and (o[0] == 'parsed' or o[0] == 'param' and o[1] == value_name):
            return True
    return False


UNKNOWN = ['void*', 'Unknown', 'char const**', 'K**']    # types without a handler: refused when declared


def tables(c, g, ws):
    """every attribute table: sentinel, each name once, functions defined with the right signature"""
    for tn, rows in sorted(g.getsets.items()):
        c.count('attribute tables')
        ob(c, bool(rows) and null_row(rows[-1]) and not any(show(r[0]) == 'NULL' for r in rows[:-1]), 'sentinel', 'table %s does not end with its only null entry' % tn, str([[show(x) for x in r] for r in rows]))
        seen = []
        for r in rows[:-1]:
            nm = cstr(r[0])
            if not ob(c, len(r) == 5 and nm is not None, 'row', 'row of %s is not {name, getter, setter, doc, closure}' % tn, str([show(x) for x in r])):
                continue
            ob(c, nm not in seen, 'twice', '%s lists %r twice' % (tn, nm))
            seen.append(nm)
            gf, sf = cfun(r[1]), cfun(r[2])
            c.case((tn, nm, gf == 'NULL', sf == 'NULL'), None)
            ob(c, gf != 'NULL' or sf != 'NULL', 'no-accessor', '%s lists %r, which has neither getter nor setter' % (tn, nm))
            for fn, ret, n in ((gf, 'PyObject*', 2), (sf, 'int', 3)):
                if fn in ('NULL', '0'):
                    continue
                fs = [f for f in g.unit.funcs if f.name == fn]
                if not ob(c, len(fs) == 1, 'defined', '%s entry %r names %s, which is defined %d times' % (tn, nm, fn, len(fs))):
                    continue
                f = fs[0]
                got = norm(f.ret or '').replace('static', '').replace(' ', '')
                tys = [norm(t).replace(' ', '') for t, x in f.params]
                ok = got == ret and len(tys) == n and tys[-1] == 'void*' and (n == 2 or tys[1] == 'PyObject*')
                ob(c, ok, 'signature', '%s entry %r: %s %s(%s)' % (tn, nm, got, fn, ', '.join(tys)), '', f)
    # a setter never touches a null value, and none is used without a test
    for tn, rows in sorted(g.getsets.items()):
        for r in rows[:-1]:
            if len(r) != 5:
                continue
            f = g.unit.func(cfun(r[2]))
            if f is not None:
                deletion(c, g, f)


def deletion(c, g, f):
    """called to delete the attribute, a setter gets NULL: it must fail without passing it on"""
    if len(f.params) < 2:
        return
    vn = f.params[1][1]
    ex = g.exec(f.name)
    bad = None
    for p in ex.paths:
        v = p.params.get(vn)
        known = v is not None and p.facts.get(v.id)
        for e in p.events:
            if e.kind == 'call' and e.api and v is not None and (e.name.startswith('PyArg_') or e.name.startswith('PyObject_') or e.name in ('Py_INCREF', 'Py_DECREF')):
                at = [x for x in e.args[:1]]
                for x in at:
                    o = x.origin
                    made = o and o[0] == 'api' and o[2] == 'Py_BuildValue' and any(y is v or y.id == v.id for y in o[3])
                    if (x.id == v.id or made) and known is not True and not (made and p.facts.get(x.id) is True and tested(p, x)):
                        bad = (e, p)
    c.count('obligations')
    if bad:
        c.fail('deletion', '%s passes on the NULL it is called with when the attribute is deleted (%s)' % (f.name, bad[0].name), 'path decisions: %r' % (bad[1].conds,), f)
    else:
        c.count('discharged')


def tested(p, x):
    return any(x.text in t[0] or 'py_retval' in t[0] and 'Parse' not in t[0] for t in p.conds)


def declared(c, g, ws):
    mod = g.mod
    if isinstance(mod, emitted.ScriptMod) or not mod.attrs:
        return
    failed = set(x[0] for x in g.skipped)
    for cls in mod.classes:
        if not hasattr(cls, 'rows'):
            if cls.attrs:
                ob(c, False, 'class-missing', 'class %s is not in the output' % cls.full)
            continue
        inst = [a for a in cls.attrs if not a.static]
        stat = [a for a in cls.attrs if a.static]
        itab = [t for t in g.getsets if any(re.sub(r'^\(.*?\)\s*', '', x) == t for x in cls.rows)]
        metas = meta_of(g, cls)
        stab = [t for t in g.getsets if metas and any(re.sub(r'^\(.*?\)\s*', '', x) == t for x in g.types[metas[0]])]
        for what, attrs, tabs in (('instance', inst, itab), ('static', stat, stab)):
            rows = dict((cstr(r[0]), r) for r in (g.getsets[tabs[0]][:-1] if tabs else []))
            names = [a.pyname for a in attrs]
            ob(c, not [x for x in rows if x not in names], 'extra:%s' % what, '%s: attributes that were not declared: %s' % (cls.full, [x for x in rows if x not in names]))
            for a in attrs:
                r = rows.get(a.pyname)
                lost = lambda kind: any(re.match(r'Cpp\w*%s %s$' % (kind, re.escape(a.name)), x) for x in failed)
                gl, sl = lost('Getter'), lost('Setter')
                if r is None:
                    ob(c, gl and (a.const or sl) or a.ctype in UNKNOWN, 'missing:%s' % what, '%s: attribute %s (%s) is missing' % (cls.full, a.name, a.ctype), 'skipped: %s' % sorted(failed))
                    continue
                gf, sf = cfun(r[1]), cfun(r[2])
                ob(c, (gf == 'NULL') == bool(gl), 'getter:%s' % what, '%s.%s: getter %s' % (cls.full, a.name, gf))
                ob(c, (sf == 'NULL') == bool(a.const or sl), 'const:%s' % what, '%s.%s is declared %s and has setter %s' % (cls.full, a.name, 'constant' if a.const else 'writable', sf))
                if gf != 'NULL':
                    getter(c, g, cls, a, gf)
                if sf != 'NULL':
                    setter(c, g, cls, a, sf)


def meta_of(g, cls):
    """the metaclass the module gives the class: assignment to its type in the initialisation"""
    out = []
    for m in re.finditer(r'Py_(?:SET_)?TYPE\(\(?(?:PyObject\s*\*\s*\)\s*)?&%s(?:\)\s*=|,)\s*&(\w+)' % re.escape(cls.tvar), g.text):
        if m.group(1) in g.types:
            out.append(m.group(1))
    return out


def kind(a):
    return 'static' if a.static else 'custom' if a.custom else 'accessor' if a.getter else 'member'


def getter(c, g, cls, a, fn):
    f = g.unit.func(fn)
    if f is None:
        return
    ex = g.exec(fn)
    c.case(('get', kind(a), a.ctype, str(sorted(a.kw.items())), cls.mem, bool(cls.parents)), '%s.%s getter' % (cls.full, a.name))
    good = 0
    for p in ex.paths:
        if p.end != 'return':
            continue
        if p.ret is None or p.ret.text.strip('() ') in ('NULL', '0'):
            continue
        c.count('obligations')
        vals = reach(p, p.ret)
        none = p.ret.text == 'Py_None' or any('Py_None' in x.text for x in vals)
        from_member = any(member(x, a) for x in vals)
        if not from_member and none:
            # a null pointer: the decision must be on the member
            from_member = any(nameof(a) in t[0] or 'retval' in t[0] for t in p.conds)
        if not from_member:
            # a wrapper found in a registry: looked up by the address of the member
            from_member = any(e.kind == 'call' and any(any(member(x, a) for x in reach(p, y)) for y in e.args) for e in p.events)
        if from_member:
            good += 1
            c.count('discharged')
        else:
            c.fail('getter-source:%s' % kind(a), '%s.%s: the value read is not that of the member' % (cls.full, a.name), 'value: %s' % p.ret.text, f)
        mine, other = stores(p, like(a))
        other = [e for e in other if e.kind != 'call' or not (a.getter and base(e.name) == a.getter)]
        c.count('obligations')
        mine = [m for m in mine]
        if mine or other:
            c.fail('getter-writes:%s' % kind(a), '%s.%s: the getter changes the object' % (cls.full, a.name), str([e.kind for e in other]), f)
        else:
            c.count('discharged')
    ob(c, good > 0, 'getter-never:%s' % kind(a), '%s.%s: no path reads the member' % (cls.full, a.name), '', f)


def like(a):
    x = Attr(a.cls, a.name, a.ctype, a.static, getter=a.getter)
    x.gt, x.st = a.gt, a.st
    return x


def nameof(a):
    return a.getter or a.name


def setter(c, g, cls, a, fn):
    f = g.unit.func(fn)
    if f is None:
        return
    ex = g.exec(fn)
    c.case(('set', kind(a), a.ctype, str(sorted(a.kw.items())), cls.mem, bool(cls.parents)), '%s.%s setter' % (cls.full, a.name))
    good = 0
    vn = f.params[1][1]
    for p in ex.paths:
        if p.end != 'return':
            continue
        mine, other = stores(p, a)
        c.count('obligations')
        rv = (p.ret.text if p.ret is not None else '').strip('() ')
        if other:
            c.fail('setter-writes:%s' % kind(a), '%s.%s: the setter writes something else' % (cls.full, a.name), str([getattr(e, 'lhs', getattr(e, 'name', '')) for e in other]), f)
            continue
        if rv == '0':
            if len(mine) != 1:
                c.fail('setter-stores:%s' % kind(a), '%s.%s: stored %d times on a path that succeeds' % (cls.full, a.name, len(mine)), 'path decisions: %r' % (p.conds,), f)
                continue
            if not python_value(p, mine[0][1], vn):
                c.fail('setter-value:%s' % kind(a), '%s.%s: the value stored is not the one given (%s)' % (cls.full, a.name, mine[0][1].text), '', f)
                continue
            if p.err:
                c.fail('setter-error:%s' % kind(a), '%s.%s: returns success with an exception set' % (cls.full, a.name), '', f)
                continue
            good += 1
            c.count('discharged')
        else:
            if mine:
                c.fail('stored-and-failed:%s' % kind(a), '%s.%s: stored although the conversion fails' % (cls.full, a.name), 'path decisions: %r' % (p.conds,), f)
            elif not p.err:
                c.fail('failed-without-error:%s' % kind(a), '%s.%s: fails without an exception' % (cls.full, a.name), 'path decisions: %r' % (p.conds,), f)
            else:
                c.count('discharged')
    ob(c, good > 0, 'setter-never:%s' % kind(a), '%s.%s: no path stores the value' % (cls.full, a.name), '', f)


def writes(p, d):
    """what the path stores to the destination d"""
    wrote = []
    for e in p.events:
        if e.kind == 'assign' and e.lv[0] in ('deref', 'field') and d is not None and e.lv[1].id == d.id:
            wrote.append(e)
        elif e.kind == 'call' and not e.api and e.base is not None and d is not None and same_obj(e.base, d) and base(e.name) not in ('size', 'begin', 'end', 'empty', 'find'):
            wrote.append(e)
        elif e.kind == 'call' and e.name.startswith('PyArg_Parse') and getattr(e, 'ok', False) and d is not None:
            if any(gv.id == d.id for (u, gv, nv) in getattr(e, 'values', [])):
                wrote.append(e)
    return wrote


def converters(c, g, ws):
    """converters used by setters (O&): the destination is written only on the paths that succeed"""
    for f in g.unit.funcs:
        if not re.match(r'_wrap_convert_py2c__', f.name) or len(f.params) != 2:
            continue
        dst = f.params[1][1]
        ex = g.exec(f.name)
        c.count('converters')
        c.case(('conv', anon(f.name)), None)
        for p in ex.paths:
            failed = [e for e in p.events if e.kind == 'call' and e.name.startswith('_wrap_convert_py2c__') and getattr(e, 'result', None) is not None and p.facts.get(e.result.id) is False]
            if failed and (p.end == 'cut' or p.end == 'return' and p.ret is not None and p.ret.text.strip('() ') == '1'):
                c.fail('converter-ignores:%s' % anon(f.name), '%s goes on although an element could not be converted' % f.name, 'path decisions: %r' % (p.conds,), f)
            if p.end != 'return' or p.ret is None:
                continue
            wrote = writes(p, p.params.get(dst))
            rv = p.ret.text.strip('() ')
            c.count('obligations')
            if rv == '0' and wrote:
                c.fail('converter-partial:%s' % anon(f.name), '%s changes its destination and then fails' % f.name, 'path decisions: %r' % (p.conds,), f)
            elif rv == '1' and not wrote:
                c.fail('converter-nothing:%s' % anon(f.name), '%s succeeds without writing its destination' % f.name, 'path decisions: %r' % (p.conds,), f)
            else:
                c.count('discharged')


def same_obj(v, d):
    return v.id == d.id or v.text.strip('()* ') == d.text


def modules(rng, thorough):
    out = []
    # attributes whose accessors cannot be generated; several attributes per class; names that are renamed
    for k in range(4 if not thorough else 20):
        m = grid.base_module(rng.choice([None, 'StdMapWrapperRegistry']))
        nc = m.cls('NC%d' % grid.uid())     # cannot be copied: getters are refused
        vals = grid.attr_values()
        for j in range(4):
            n = grid.uid()
            par = rng.random() < .3
            c = m.cls('VC%d' % n, subclassable=rng.random() < .5, parents=[m.base['V']] if par else [], ns='ns' if rng.random() < .3 else None)
            m.ctor(c)
            # some attributes share one value type object
            shared = rng.random() < .3
            if shared:
                t0, kw0 = rng.choice(vals)
                v0 = 'v%d' % n
                m.line('%s = ReturnValue.new(%s)' % (v0, ', '.join([repr(t0)] + ['%s=%r' % x for x in kw0.items()])))
            for i in range(rng.choice([2, 4, 6])):
                q = grid.uid()
                t, kw = rng.choice(vals)
                if shared and rng.random() < .7:
                    t, kw = t0, dict(kw0, value=v0)
                r = rng.random()
                const = rng.random() < .4
                if r < .3:
                    m.attr(c, 'a%d' % q, t, const=const, py='py%d' % q if rng.random() < .4 else None, **kw)
                elif r < .5:
                    m.attr(c, 'a%d' % q, t, static=True, const=const, **kw)
                elif r < .7:
                    m.attr(c, 'a%d' % q, t, const=const, getter=rng.choice([None, 'Get%d' % q, 'Get%d' % q]), setter=None if const or r > .65 else 'Set%d' % q, py='py%d' % q if rng.random() < .4 else None, **kw)
                elif r < .9:
                    m.attr(c, 'a%d' % q, t, custom=True, const=const, getter='cget%d' % q, setter=None if const or r > .85 else 'cset%d' % q, gt=rng.choice([(), ('A',), ('A', 'int'), ('int', 'A')]), st=() if const or r > .85 else rng.choice([(), ('B',), ('B', 'C'), ('C', 'B'), ('B', 'B')]), **kw)
                else:
                    m.attr(c, 'a%d' % q, rng.choice(UNKNOWN), static=rng.random() < .5, const=const)
                if i == 0 and rng.random() < .6:
                    t = rng.choice([nc.name, nc.name + '&', nc.name + ' *'])
                    kw = {} if t == nc.name else {'caller_owns_return': False}
                    m.attr(c, 'n%d' % q, t, static=rng.random() < .4, const=rng.random() < .7, **kw)
                m.extra_known.update(['Get%d' % q, 'Set%d' % q, 'cget%d' % q, 'cset%d' % q])
        out.append(m)
    return out


def run(S):
    emitted.sweep(S, [tables, declared, converters], modules(S.rng, S.thorough) + grid.all_modules(S.rng, S.thorough))
