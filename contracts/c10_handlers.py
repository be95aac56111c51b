"""C10 - every handler of an 8- or 16-bit integer type, alone, for any name, default value and const: on every path and for
every Python integer the C++ side gets that integer, and only integers outside the C type are refused."""
import z3
from . import task
from .hworld import Case
from suites.c10 import small, Z, pyint, value, wrap, inrange, parses


def pick(E, kind, forward):
    c = Case(E, kind, forward, lambda t, k: small(t) is not None)
    if not c.made or 'array_length' in c.kw or not c.convert():
        return None, None
    c.evaluate()
    return c, small(c.ctype)


def equal(zz, pz, v, b):
    return pz is not None and v is not None and v.z is not None and zz.unsat(z3.Or(wrap(v.z, b) != pz, z3.Not(inrange(pz, b))))


def narrow(E, c):
    bad = [str(p) for p in c.ex.problems if p.kind == 'narrow']
    E.prove('no value changes on a narrowing conversion', not bad, '%r: %s\n%s' % (c, bad[:2], c.c))


def refusal(E, c, zz, pz, b, p):
    E.prove('only integers outside the C type are refused', pz is not None and not zz.caused([(pz, b)]), '%r: %r\n%s' % (c, p.conds, c.c))


@task('C10', 'parameters of wrappers: the C++ argument is the Python integer - every small integer handler, any default')
def t_fp(E):
    c, b = pick(E, 'param', True)
    if c is None or not c.direction & 1:
        return
    narrow(E, c)
    reached = 0
    for p in c.ex.paths:
        pe = parses(p)
        E.prove('parsed once', len(pe) == 1 and len(pe[0].parsed if getattr(pe[0], 'ok', False) else [0]) == 1, '%r\n%s' % (c, c.c))
        if not pe or not getattr(pe[-1], 'ok', False):
            continue
        zz = Z(p)
        tg = [e for e in p.calls() if e.name == 'TARGET']
        if not pe[-1].given[0]:
            continue        # the default stands: C03
        pz = pyint(pe[-1].parsed[0][0])
        for e in tg:
            reached += 1
            E.prove('the argument is the Python integer, and within the C type', equal(zz, pz, value(e, 0), b), '%r\n%s' % (c, c.c))
        if not tg and not any(e.kind == 'throw' for e in p.events):
            refusal(E, c, zz, pz, b, p)
    E.prove('the call is reached', reached > 0, '%r\n%s' % (c, c.c))


def reverse(E, kind):
    c, b = pick(E, kind, False)
    if c is None or kind == 'param' and not c.direction & 2:
        return
    narrow(E, c)
    done = 0
    for p in c.ex.paths:
        pe = parses(p)
        if not pe or not getattr(pe[-1], 'ok', False):
            continue
        zz = Z(p)
        pz = pyint(pe[-1].parsed[0][0])
        if any(e.name in ('PyErr_Print', 'PyErr_SetString', 'PyErr_Format') and e.seq > pe[-1].seq for e in p.calls()):
            refusal(E, c, zz, pz, b, p)
            continue
        if kind == 'return':
            v = p.ret
        elif c.ctype.rstrip().endswith('*'):
            par = p.params.get('NAME')
            v = p.heap.get(('*', par.id)) if par is not None else None
        else:
            cl = p.scopes[0].get('NAME')
            v = cl.val if cl is not None else None
        done += 1
        E.prove('the C++ side gets the Python integer, within the C type', equal(zz, pz, v, b), '%r: %s\n%s' % (c, v, c.c))
    E.prove('a result is handed over', done > 0, '%r\n%s' % (c, c.c))


@task('C10', 'output parameters of overrides: the C++ side gets the Python integer - every small integer handler')
def t_rp(E):
    reverse(E, 'param')


@task('C10', 'results of overrides: the C++ side gets the Python integer - every small integer handler')
def t_rr(E):
    reverse(E, 'return')
