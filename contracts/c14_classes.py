"""C14, C20, C09, C11 - every handler of a wrapped class, alone, in the frame of the wrappers and overrides (C03, C04, C09,
C12, C13), for arbitrary names: the accounts of its objects add up on every path; the wrappers made and found are those
the registry records; what it uses is declared; references are not taken from NULL."""
from . import task
from .cworld import *
from suites import c14, c20, own


def case(E, kind, forward, policy):
    c = ClassCase(E, kind, forward, policy)
    if not c.made or not c.convert():
        return None
    c.evaluate()
    return c


def ownership(E, kind, forward, policy):
    c = case(E, kind, forward, policy)
    if c is None:
        return
    k, s, mod = c.k, c.spec(), FakeMod(c.k)
    role = 'func' if forward else 'virtual'
    f = c.u.func('F')
    for p in c.ex.paths:
        if c14.looked_up_null(p):
            continue
        r = c14.accounts(p, f, s, role, not forward, mod, k.ks(), [k.kind], k.structs())
        if r is not None:
            E.prove('the accounts of every object add up', r[1] is None, '%r: %r: %r: %r\n%s' % (c, r[1], r[0].log, p.conds, c.body))
    col = Failures()
    w = FakeW(s, f, c.ex, role)
    if forward:
        if s.ret.cls:
            c14.results(col, None, w, k.ks())
        c14.given(col, w, k.ks(), mod)
    E.prove('results are shared or copied as declared, what is given away is let go', not col.bad, '%r: %s\n%s' % (c, col.bad[:2], c.body))


def identity(E, kind, forward, policy):
    c = case(E, kind, forward, policy)
    if c is None:
        return
    k, s = c.k, c.spec()
    if not k.registry:
        E.prove('nothing is recorded without a registry', 'wrapper_registry' not in c.body, c.body)
        return
    for p in c.ex.paths:
        if c14.looked_up_null(p):
            continue
        m = c20.Monitor(p, k.maps, k.structs20(), override=not forward)
        bad = c20.one(m, p, s, 'func' if forward else 'virtual', None, not forward, {})
        E.prove('an object has one wrapper, the recorded one', bad is None, '%r: %r: %r\n%s' % (c, bad, p.conds, c.body))


def declared(E, kind, forward, policy):
    c = case(E, kind, forward, policy)
    if c is None:
        return
    bad = [str(p) for p in c.ex.problems if p.kind in ('format', 'undeclared')]
    E.prove('units and variables agree', not bad, '%r: %s\n%s' % (c, bad[:2], c.body))


def references(E, kind, forward, policy):
    c = case(E, kind, forward, policy)
    if c is None:
        return
    bad = [str(p) for p in c.ex.problems if p.kind in ('null', 'refs')]
    E.prove('no reference is taken from NULL', not bad, '%r: %s\n%s' % (c, bad[:2], c.body))


POSITIONS = [('parameters of wrappers', 'param', True), ('parameters of overrides', 'param', False), ('results of wrappers', 'return', True), ('results of overrides', 'return', False)]
JUDGES = [('C14', 'the accounts of the objects add up', ownership), ('C20', 'one wrapper for an object', identity), ('C11', 'units and variables agree', declared), ('C09', 'no reference is taken from NULL', references)]
for _pid, _t, _j in JUDGES:
    for _n, _k, _f in POSITIONS:
        for _p in POLICIES:
            def _g(E, j=_j, k=_k, f=_f, p=_p):
                j(E, k, f, p)
            task(_pid, '%s of a class: %s - %s' % (_n, _t, _p))(_g)
