"""C03 - every handler of a container as a parameter of a wrapper, alone: see c03_handlers."""
from . import task
from .cboxes import BoxCase
from .c03_handlers import parameter


@task('C03', 'parameters of a container: one item per input, what is parsed is what is passed')
def t_box(E):
    parameter(E, BoxCase(E, 'param', True))
