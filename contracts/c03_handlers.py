"""C03 - every handler of a builtin type as a parameter of a wrapper, alone, for any name and default value: an input has one
parse item, carrying its name and optional only when it has a default; what is parsed is what the C++ call is given, and
the default if nothing is; an output has no item, and its address is given."""
from . import task
from .hworld import Case
from suites.corpus import Prov
from suites.c14 import eqnone


def arguments(e, heap):
    """what the call is given: the values, and what they point to"""
    out = []
    for k, v in enumerate(e.args):
        out.append(v)
        pt = getattr(e, 'pointees', None)
        if pt and pt[k] is not None:
            out.append(pt[k])
        x = (getattr(e, 'heap', None) or heap).get(('*', v.id))
        if x is not None:
            out.append(x)
    return out


@task('C03', 'parameters of wrappers: one item per input, what is parsed is what is passed - every builtin handler, any name and default')
def t_fp(E):
    parameter(E, Case(E, 'param', True))


def parameter(E, c):
    if not c.made or not c.convert():
        return
    c.evaluate()
    t = '%r\n%s' % (c, c.c)
    items = c.wr.parse_params.items
    inp = bool(c.direction & 1)
    E.prove('one item for an input, none for an output', len(items) == (1 if inp else 0), t)
    if len(items) == 1 and inp:
        a, b, n, opt, prep = items[0]
        E.prove('the item carries the name of the parameter', n is not None and E.eq(n, c.name), t)
        E.prove('optional only if there is a default', not opt or c.default is not None, t)
        E.prove('registered after the parameters before it', not prep, t)
    E.prove('one argument', len(c.wr.call_params) == 1 or 'array_length' in c.kw, t)
    if 'array_length' in c.kw:
        return          # the elements are the loop's: C10, C11
    null_ok = c.kw.get('null_ok')
    done = 0
    for p in c.ex.paths:
        tg = [e for e in p.calls() if e.name == 'TARGET']
        if not tg:
            continue
        done += 1
        E.prove('called once', len(tg) == 1, t)
        pe = [e for e in p.calls() if e.name.startswith('PyArg_Parse') and getattr(e, 'ok', False)]
        got = set()
        for v in arguments(tg[0], p.heap):
            got |= Prov(p).walk(v, tg[0].heap if getattr(tg[0], 'heap', None) is not None else p.heap)
        parsed = set(x[1] for x in got if x[0] == 'parsed')
        if pe and pe[-1].given and pe[-1].given[0]:
            ids = set(v.id for v in pe[-1].parsed[0])
            none = null_ok and [a.text.strip() for a in tg[0].args] == ['NULL'] and any(eqnone(p, v) for v in pe[-1].parsed[0])
            E.prove('what was parsed is passed', bool(parsed & ids) or none, '%s\n%r %r' % (t, got, [a.text for a in tg[0].args]))
        elif pe and pe[-1].given:
            E.prove('nothing is passed that was not given', not parsed, t)
            if c.default is not None:
                t = '%r\n%s' % (c, c.c)
                empty = isinstance(c.default, str) and [v for v in tg[0].args if v.origin is None and v.addr is None and 'shared_ptr' in str(v.ty)]
                E.prove('an absent parameter has its default', bool(empty) or ('NULL' if c.cls.__name__ == 'IntPtrParam' or isinstance(c.default, str) else 'DEFAULT') in ' '.join(v.text for v in arguments(tg[0], p.heap)), '%s\n%r' % (t, [v.text for v in arguments(tg[0], p.heap)]))
    E.prove('the call is reached', done > 0, t)
