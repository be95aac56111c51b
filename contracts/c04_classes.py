"""C04 - every handler of a wrapped class, alone, for any name: see c04_handlers."""
from . import task
from .cworld import ClassCase, POLICIES
from .c04_handlers import wrapper, override_parameter, override_result

for _n, _k, _f, _j in [('outputs of a class, wrappers', 'param', True, wrapper), ('results of a class, wrappers', 'return', True, wrapper),
                       ('parameters of a class, overrides', 'param', False, override_parameter), ('results of a class, overrides', 'return', False, override_result)]:
    for _p in POLICIES:
        def _g(E, k=_k, f=_f, j=_j, p=_p):
            j(E, ClassCase(E, k, f, p))
        task('C04', '%s: one value each, of what was given - %s' % (_n, _p))(_g)
