"""C04 - every handler of a builtin type, alone, for any name: in wrappers a result and an output parameter each add exactly
one value to the result, made of what the C++ call gave, inputs none, and the return value goes before the parameters; in
overrides inputs are handed over, once, and the return value and the outputs are unpacked in the same way."""
from . import task
from .hworld import Case
from suites.corpus import Prov


class Origins(Prov):
    """Prov, and through references to what they are bound to and into shared pointers that were reset"""
    def walk(self, v, heap=None, seen=None, out=None):
        seen = set() if seen is None else seen
        new = v is not None and v.id not in seen
        out = Prov.walk(self, v, heap, seen, out)
        if new:
            if v.addr is not None and v.addr[0] == 'var' and getattr(v.addr[1], 'bound', None) is not None and hasattr(v.addr[1].bound, 'origin'):
                self.walk(v.addr[1].bound, heap, seen, out)
            for e in self.p.calls():
                if e.name.split('::')[-1] == 'reset' and e.base is not None and e.base is (heap if heap is not None else self.p.heap).get((v.id, 'obj')):
                    for a in e.args:
                        self.walk(a, heap, seen, out)
        return out


def prov(c, p, vs, heap, targets=()):
    out = set()
    for v in vs:
        seen = set()
        out |= Origins(p, targets).walk(v, dict(heap), seen)
        if targets and c.kind == 'param':
            for k, a in enumerate(targets[0].args):
                cell = heap.get(('*', a.id))        # an object on the heap that the call was given
                if a.id in seen or cell is not None and cell.id in seen:
                    out.add(('out', k))
                mine = set()
                Prov(p).walk(a, dict(heap), mine)
                if any((x[1], 'obj') in heap and heap[(x[1], 'obj')].id in mine for x in out if x[0] == 'obj'):
                    out.add(('out', k))             # the object of the wrapper that is handed over
    return out


def isvoid(c):
    return c.kind == 'return' and c.ctype.split()[-1] == 'void'


@task('C04', 'parameters of wrappers: one value per output, made of what the call left there - every builtin handler, any name')
def t_fp(E):
    wrapper(E, Case(E, 'param', True))


@task('C04', 'results of wrappers: one value, before the outputs, made of the result - every builtin handler')
def t_fr(E):
    wrapper(E, Case(E, 'return', True))


def wrapper(E, c):
    kind = c.kind
    if not c.made or not c.convert():
        return
    c.evaluate()
    t = '%r\n%s' % (c, c.c)
    n = 0 if isvoid(c) else 1 if kind == 'return' or c.direction & 2 else 0
    if c.inplace:
        n = 0           # the object is changed in place
    items = c.wr.build_params.items
    E.prove('one value for a result, none otherwise', len(items) == n, t)
    if len(items) != n:
        return
    for a, b, h, prep in items:
        E.prove('the return value first, outputs in declaration order', prep == (kind == 'return'), t)
    if 'array_length' in c.kw:
        return
    done = 0
    for p in c.ex.paths:
        tg = [e for e in p.calls() if e.name == 'TARGET']
        if not tg or p.end != 'return' or any(e.kind == 'throw' for e in p.events):
            continue
        bs = [e for e in p.calls() if e.name == 'Py_BuildValue' and e.seq > tg[0].seq]
        if not n:
            continue
        done += 1
        E.prove('the result is built', len(bs) == 1 and len(bs[0].items) == 1, t)
        if len(bs) == 1 and len(bs[0].items) == 1:
            got = prov(c, p, bs[0].items[0][1], bs[0].heap, tg)
            null = bs[0].items[0][1] and bs[0].items[0][1][0].text.strip() in ('NULL', '0', 'Py_None')
            null = null and (kind == 'return' or tg[0].args[0].text.strip() in ('NULL', '0'))       # nothing was there to be given
            E.prove('made of what the call gave', (('ret',) if kind == 'return' else ('out', 0)) in got or null, '%s\n%r' % (t, got))
    E.prove('a result is handed over', done > 0 or not n, t)


@task('C04', 'parameters of overrides: inputs handed over, outputs unpacked, once each - every builtin handler, any name')
def t_rp(E):
    override_parameter(E, Case(E, 'param', False))


def override_parameter(E, c):
    if not c.made or not c.convert():
        return
    c.evaluate()
    t = '%r\n%s' % (c, c.c)
    b, q = c.wr.build_params.items, c.wr.parse_params.items
    if c.inplace:
        E.prove('the object is handed over, to be changed in place', len(b) == 1 and not q, t)
        return
    E.prove('an input is handed over once', len(b) == 1 if c.direction & 1 else len(b) <= (1 if c.filled or 'std::' in c.ctype or 'Glib' in c.ctype or 'array_length' in c.kw else 0), t)
    E.prove('an output is unpacked once', len(q) == (1 if c.direction & 2 else 0), t)
    E.prove('in declaration order', not any(x[3] for x in b) and not any(x[4] for x in q), t)
    if 'array_length' in c.kw:
        return
    for p in c.ex.paths:
        cm = [e for e in p.calls() if e.name == 'PyObject_CallMethod']
        for e in cm:
            if c.direction & 1 and len(e.items) == 1:
                got = prov(c, p, e.items[0][1], e.heap)
                E.prove('the override is given the parameter', ('param', 'NAME') in got, '%s\n%r' % (t, got))
        pe = [e for e in p.calls() if e.name == 'PyArg_ParseTuple' and getattr(e, 'ok', False)]
        if pe and c.direction & 2 and p.end in ('return', 'fall') and not failed(p, pe[-1]):
            if c.ctype.rstrip().endswith('*'):
                par = p.params.get('NAME')
                v = p.heap.get(('*', par.id)) if par is not None else None
            else:
                cl = p.scopes[0].get('NAME')
                v = cl.val if cl is not None else None
            given(E, c, p, v, pe[-1], t)


def failed(p, pe):
    return any(e.name.startswith('PyErr_') and e.name not in ('PyErr_Clear', 'PyErr_Occurred') and e.seq > pe.seq for e in p.calls())


def given(E, c, p, v, pe, t):
    ids = set(('parsed', x.id) for vs in pe.parsed for x in vs)
    got = Prov(p).walk(v, p.heap) if v is not None else set()
    E.prove('the C++ side gets what the override returned', bool(got & ids), '%s\n%r %r' % (t, got, v))


@task('C04', 'results of overrides: the return value is unpacked first, once, and returned - every builtin handler')
def t_rr(E):
    override_result(E, Case(E, 'return', False))


def override_result(E, c):
    if not c.made or not c.convert():
        return
    c.evaluate()
    t = '%r\n%s' % (c, c.c)
    q = c.wr.parse_params.items
    q = [x for x in q if not (isinstance(x[0], str) and x[0] == '' and not x[1])]
    E.prove('a return value is unpacked once', len(q) == (0 if isvoid(c) else 1), t)
    E.prove('before the outputs', all(x[4] for x in q), t)
    E.prove('nothing is handed over for it', not c.wr.build_params.items, t)
    done = 0
    for p in c.ex.paths:
        pe = [e for e in p.calls() if e.name == 'PyArg_ParseTuple' and getattr(e, 'ok', False)]
        if pe and p.end == 'return' and not isvoid(c) and not failed(p, pe[-1]):
            done += 1
            given(E, c, p, p.ret, pe[-1], t)
    E.prove('a value is returned', done > 0 or isvoid(c), t)
