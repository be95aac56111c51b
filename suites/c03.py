"""C03 argument tables: every short registration sequence plus random long ones, against a model."""
import itertools
from pybindgen.typehandlers.base import ParseTupleParameters

TMPL = ['i', 'O!', 's#', 'O&', 'd', 'O', 's', 'n', '(ii)']


def model(regs):
    """regs: list of (template, values, name, optional) in table order"""
    refused = False
    seen = False
    fmt = '"'
    for (t, v, n, o) in regs:
        if seen and not o:
            refused = True
        if o and not seen:
            seen = True
            fmt += '|'
        fmt += t
    fmt += '"'
    params = None if refused else [fmt] + [x for r in regs for x in r[1]]
    names = [r[2] for r in regs]
    if all(n is None for n in names):
        kw = None
    elif any(n is None for n in names):
        kw = ValueError
    else:
        kw = names
    return (ValueError if refused else params), kw


def ask(f):
    try:
        return f()
    except ValueError:
        return ValueError


def one(S, ops, key=None):
    p = ParseTupleParameters()
    regs = []
    for (t, v, n, o, pre) in ops:
        v = list(v)
        if pre:
            r = p.add_parameter(t, v, n, prepend=True, optional=o)
            regs.insert(0, (t, list(v), n, o))
        else:
            r = p.add_parameter(t, v, n, optional=o) if o else p.add_parameter(t, v, n)
            regs.append((t, list(v), n, o))
        if r != len(regs):
            S.fail('count', 'add_parameter returns the number of registrations', 'got %r' % (r,), repr(ops))
    want, kw = model(regs)
    for rep in range(2):
        got = ask(p.get_parameters)
        if got != want:
            S.fail('parameters', 'format and destinations', 'got %r\nwant %r (asked %d times before)' % (got, want, rep), repr(ops))
        if isinstance(got, list):
            got.append('spoiled by the caller')
        gk = ask(p.get_keywords)
        if gk != kw:
            S.fail('keywords', 'keyword list', 'got %r\nwant %r' % (gk, kw), repr(ops))
        if isinstance(gk, list):
            gk.append('spoiled')
        if want is not ValueError:
            if p.is_empty() != (want == ['""']):
                S.fail('is_empty', 'is_empty', repr(p.is_empty()), repr(ops))
    p.clear()
    if p.get_parameters() != ['""'] or p.get_keywords() is not None:
        S.fail('clear', 'clear empties the table', '', repr(ops))
    S.case(repr(ops) if len(ops) > 1 else None, repr(ops) if S.n % 4000 == 77 else None)


def run(S):
    # every sequence of up to 4 registrations over: optional x prepended x named
    n = 4 if not S.thorough else 5
    kinds = [(o, p, nm) for o in (False, True) for p in (False, True) for nm in (False, True)]
    for k in range(n + 1):
        for combo in itertools.product(kinds, repeat=k):
            one(S, [(TMPL[i % len(TMPL)], ['&v%d' % i] if i % 2 else ['&PyT_Type', '&v%d' % i], 'n%d' % i if nm else None, o, p)
                    for i, (o, p, nm) in enumerate(combo)])
    for it in range(2000 if not S.thorough else 20000):
        ops = []
        r = S.rng
        mode = r.random()
        for i in range(r.randrange(0, 25)):
            ops.append((r.choice(TMPL), ['&v%d_%d' % (i, j) for j in range(r.randrange(0, 3))],
                        None if r.random() < (.1 if mode < .3 else 0) or mode > .9 else r.choice(['n%d' % i, 'n', '']) or 'n',
                        (i > 10) if mode < .6 else r.random() < .3, r.random() < .1))
        one(S, ops)
    S.stats['exhaustive up to'] = n
