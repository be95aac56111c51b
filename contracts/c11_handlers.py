"""C11 - every handler of the builtin types, alone, for any name, default value and const: each conversion unit takes
variables of its type, everything used is declared, and set before it is read."""
from . import task
from .hworld import Case


def units(E, kind, forward):
    c = Case(E, kind, forward)
    if not c.made or not c.convert():
        return
    ex = c.evaluate()
    bad = [str(p) for p in ex.problems if p.kind in ('format', 'undeclared')]
    E.prove('units and variables agree', not bad, '%r: %s\n%s' % (c, bad[:2], c.c))


@task('C11', 'parameters of wrappers: units and variables agree - every builtin handler, any name and default')
def t_fp(E):
    units(E, 'param', True)


@task('C11', 'parameters of overrides: units and variables agree - every builtin handler, any name')
def t_rp(E):
    units(E, 'param', False)


@task('C11', 'results of wrappers: units and variables agree - every builtin handler')
def t_fr(E):
    units(E, 'return', True)


@task('C11', 'results of overrides: units and variables agree - every builtin handler')
def t_rr(E):
    units(E, 'return', False)
