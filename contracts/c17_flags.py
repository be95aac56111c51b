"""C17 - contracts on the flags of a wrapper (pybindgen/typehandlers/base.py): they agree with what generate_body makes
the C function parse, for every list of parameters; asking for them when nothing was generated yet generates into nowhere
and leaves the wrapper as it was."""
from . import task, need
from .c03_body import parse_call


@task('C17', 'generate_body: the flags agree with the parsing, any parameters')
def t_flags(E):
    parse_call(E)
