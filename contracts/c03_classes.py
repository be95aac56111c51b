"""C03 - every handler of a wrapped class as a parameter of a wrapper, alone, for any name and default: see c03_handlers."""
from . import task
from .cworld import ClassCase, POLICIES
from .c03_handlers import parameter

for _p in POLICIES:
    def _f(E, p=_p):
        parameter(E, ClassCase(E, 'param', True, p))
    task('C03', 'parameters of a class: one item per input, what is parsed is what is passed - %s' % _p)(_f)
