"""C03 - contract on the argument parsing of ForwardWrapperBase.generate_body, for every list of parameters: the table is
handed to the parser once, after what the parameters put before parsing and before everything that uses their values; no
call is made, and no arguments are asked for, if there is nothing to parse.  Flags: as the call (C17)."""
from . import task, need
from .ghost import *
from . import wrap
from .wrap import forward, evaluate
from pybindgen.typehandlers.base import ForwardWrapperBase

PARSE = ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords')


def strip(x):
    return x.replace(' ', '').replace('(char*)', '').replace('(char**)', '')


def parse_call(E):
    w, f, ret = forward(E, False)
    sink = w.sink()
    k, r = E.outcome(ForwardWrapperBase.generate_body, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    ex = evaluate(E, w, sink.ctext(), 'PyObject *' if ret is not None else 'void *')
    fmt, dests = w.get_table()
    want = bool(dests) or f.force_parse is not None
    keyed = want and (w.keywords is not None or f.force_parse == ForwardWrapperBase.PARSE_TUPLE_AND_KEYWORDS)
    flags = sorted(set(f.meth_flags))
    E.prove('flags ask for the arguments exactly if they are parsed, for keywords exactly if they are given to the parser',
            flags == (['METH_KEYWORDS', 'METH_VARARGS'] if keyed else ['METH_VARARGS'] if want else ['METH_NOARGS']), flags)
    good = 0
    for p in ex.paths:
        ps = [e for e in p.calls() if e.name in PARSE]
        names = [e.name for e in p.calls()]
        if 'CONVERT_BEFORE_CALL' in names:
            E.prove('parsed exactly once before the values are used', len(ps) == (1 if want else 0), names)
        for e in ps:
            good += 1
            a = [strip(x) for x in e.argtext]
            before = names[:names.index(e.name)]
            E.prove('nothing but what comes before parsing comes before parsing', set(before) <= set(['CONVERT_BEFORE_PARSE']) and 'CONVERT_BEFORE_PARSE' in before, names)
            E.prove('keywords are passed exactly if there are any', (e.name == PARSE[1]) == keyed, e.name)
            if keyed:
                kws = a[3].strip('{}').split(',')
                E.prove('the keyword list is the table of keywords', kws in (['"%s"' % x for x in (w.keywords or ())] + [end] for end in ('NULL', '0')), a)
                E.prove('the format and the destinations of the table, in order', a[:3] + a[4:] == ['args', 'kwargs', fmt] + dests, a)
            else:
                E.prove('the format and the destinations of the table, in order', a == ['args', fmt] + dests, a)
        for e, taken in [(e, e.result.id in p.facts and p.facts[e.result.id]) for e in ps if e.result is not None]:
            if not taken and p.end == 'return':
                E.prove('a refusal ends the wrapper', 'CONVERT_BEFORE_CALL' not in names and 'TARGET' not in names, names)
    E.prove('the parser is reached', good > 0 or not want)


@task('C03', 'generate_body: parses with the table, once, before the values are used - any parameters')
def t_parse(E):
    parse_call(E)
