"""C11 conversion codes and C variables: obligations at every argument-parsing and value-building
call of every emitted function of the corpus, on every path."""
from . import emitted, grid

RULE = 'emitted functions with at least one conversion code'


def run(S):
    mods = grid.all_modules(S.rng, S.thorough)
    k = 0
    while k < (3 if S.thorough else 0):
        mods += grid.grid_modules(S.rng, True)
        k += 1
    emitted.sweep(S, [emitted.problems(('format', 'undeclared'), 'conversion code and variable disagree')], mods)
