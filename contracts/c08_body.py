"""C08 - contracts on what a wrapper whose conversions fail leaves behind (pybindgen/typehandlers/base.py), for every list of
parameters and every position of the failure: the error propagates - a handler without the conversion as a
CodeGenerationError - and nothing reached the sink."""
from . import task, need
from .ghost import *
from . import wrap
from .wrap import forward, evaluate
from pybindgen.typehandlers.base import ForwardWrapperBase, CodeGenerationError


@task('C08', 'generate_body: a conversion that fails leaves nothing in the sink and its error propagates - any parameters')
def t_fail(E):
    w, f, ret = forward(E, E.choose(2, 'unblock') == 1, fails=True, small=True)
    sink = w.sink()
    k, r = E.outcome(ForwardWrapperBase.generate_body, f, sink)
    if not w.failed:
        E.prove('generated', k == 'ok', r)
        return
    E.prove('the wrapper fails', k == 'exc', r)
    E.prove('with the error of the conversion, or as one that cannot be generated', isinstance(r, wrap.Refused) if w.failed == 'refused' else isinstance(r, CodeGenerationError), r)
    E.prove('nothing is in the sink', not sink.get_parts(), sink.get_parts())
