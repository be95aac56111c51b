"""Ghost wrappers: the real generator classes are evaluated with an arbitrary list of parameter handlers, an arbitrary
return value handler and arbitrary parse and build tables; the code blocks are contract models that keep what is written
as a sequence of texts, some of them symbolic runs.

A run of texts written by the handlers of an unbounded list is a fold F(n) (F(0) empty, F(i+1) = F(i) ++ [text(i)]); as C
text it is rendered as an opaque use of Python that may fail: 'if (<RUN>()) { <error return of the block> }', which is all
a handler may do with its block (C01: its error exits run the live clean-ups first)."""
import re
import z3
from pyvc.values import *
from pyvc.engine import Cand, LoopSpec
from .ghost import fold_seq
from . import ctext
from pybindgen.typehandlers import base
from pybindgen.typehandlers.base import Parameter, ReturnValue, ForwardWrapperBase, ReverseWrapperBase

I = z3.IntSort()


class Runs(object):
    """the folds and what each is rendered as"""
    _pyvc_model = True

    def __init__(self):
        self.of = {}

    def add(self, F, render):
        """render: C text, or (condition, world, block): an exit of that block"""
        self.of[F.name()] = render

    def render(self, f, live, snap):
        """the text of a run; a run that may fail runs the clean-ups that are live where the run is: those of its own block,
        and those that were live in the preceding block where this loop wrote there"""
        r = self.of[f]
        if isinstance(r, str):
            return r
        cond, w, b = r
        snap[b] = list(live.get(b, []))
        acts, blk = [], w.blocks.get(b)
        while blk is not None:
            l = snap.get(blk.label, live.get(blk.label, []))
            acts += [w.names.text(w.cleanup_texts[(blk.label, n)]) for n in reversed(l)]
            blk = blk.predecessor
        return 'if (%s()) {\n%s\n%s\n}' % (cond, '\n'.join(acts), w.names.text(w.blocks[b].error_return))


class Texts(object):
    """contract model of a memory sink: the texts, in order"""
    _pyvc_model = True

    def __init__(self, E, names, runs):
        self._pyvc_eng, self._pyvc_names, self._pyvc_runs = E, names, runs
        self.lines = mklist([])

    def add(self, text):
        if not isinstance(text, (str, SStr)):
            raise TypeError('text expected, %s given' % type(text).__name__)
        self._pyvc_eng.interp.note_write(self.lines)
        self.lines.set_parts(self.lines.get_parts() + [('e', text)])

    def writeln(self, text=''):
        self.add(text)

    def indent(self, level=4):
        pass

    def unindent(self):
        pass

    def flush_to(self, sink):
        sink.lines.set_parts(sink.lines.get_parts() + self.lines.get_parts())
        self.lines.set_parts([])

    def get_parts(self):
        return self.lines.get_parts()

    def ctext(self, parts=None):
        out = []
        live, snap = {}, {}
        for k, v in (self.lines.get_parts() if parts is None else parts):
            if k == 'e':
                m = isinstance(v, str) and re.match(r'/\*cleanup([+-]) (\w+) (\d+)\*/$', v)
                if m:
                    l = live.setdefault(m.group(2), [])
                    if m.group(1) == '+':
                        l.append(int(m.group(3)))
                    elif int(m.group(3)) in l:
                        l.remove(int(m.group(3)))
                    continue
                out.append(self._pyvc_names.text(v))
                continue
            e = v.seqexpr()
            f = e.decl().name() if e is not None and z3.is_app(e) else None
            if f not in self._pyvc_runs.of or not str(e.arg(0)).startswith('len_'):
                raise Unsupported('emitted text with an unknown run: %r' % (v,))
            out.append(self._pyvc_runs.render(f, live, snap))
        return '\n'.join(out)


class GhostScope(object):
    """contract model of a declarations scope (C02): every name given once"""
    _pyvc_model = True

    def __init__(self, w, parent=None):
        self.w = w
        self.sink = Texts(w.E, w.names, w.runs)
        self.taken = set()

    def clear(self):
        self.sink.lines.set_parts([])
        self.taken = set()

    def _name(self, name):
        try:
            n = self.w.names.text(name)
        except Unsupported:
            # the name of an arbitrary parameter: distinct from the others (C02)
            return name
        c = 1
        r = n
        while r in self.taken:
            c += 1
            r = n + str(c)
        self.taken.add(r)
        return name if r == n else r

    def declare_variable(self, type_, name, initializer=None, array=None):
        t = self.w.names.text
        n = self._name(name)
        self.sink.add('%s %s%s%s;' % (t(type_), t(n), '' if array is None else t(array), '' if initializer is None else ' = ' + t(initializer)))
        return n

    def reserve_variable(self, name):
        return self._name(name)

    def get_code_sink(self):
        return self.sink


class GhostBlock(object):
    """contract model of a code block (C01)"""
    _pyvc_model = True

    def __init__(self, w, error_return, declarations, predecessor=None):
        self.w, self.error_return, self.declarations, self.predecessor = w, error_return, declarations, predecessor
        self.sink = Texts(w.E, w.names, w.runs)
        self.cleanups = []
        self.count = 0
        self.label = 'block%d' % len(w.block_order)
        w.block_order.append(self)
        w.blocks[self.label] = self

    def clear(self):
        self.sink.lines.set_parts([])
        self.cleanups = []

    def write_code(self, text):
        self.sink.add(text)

    def indent(self, level=4):
        pass

    def unindent(self):
        pass

    def declare_variable(self, type_, name, initializer=None, array=None):
        return self.declarations.declare_variable(type_, name, initializer, array)

    def add_cleanup_code(self, text):
        self.count += 1
        self.cleanups.append((self.count, text))
        self.w.cleanup_texts[(self.label, self.count)] = text
        self.sink.add('/*cleanup+ %s %d*/' % (self.label, self.count))
        return GhostHandle(self, self.count)

    def get_cleanup_code(self):
        r = [t for _, t in reversed(self.cleanups)]
        return r + (self.predecessor.get_cleanup_code() if self.predecessor is not None else [])

    def write_cleanup(self):
        for t in self.get_cleanup_code():
            self.sink.add(t)

    def write_error_return(self):
        self.write_cleanup()
        self.sink.add(self.error_return)

    def write_error_check(self, cond, failure_cleanup=None):
        self.sink.add(mkstr(['if ('] + list(self.w.E.interp.pieces(cond)) + [') {']))
        if failure_cleanup is not None:
            self.sink.add(failure_cleanup)
        self.write_error_return()
        self.sink.add('}')


class GhostHandle(object):
    _pyvc_model = True

    def __init__(self, block, n):
        self.block, self.n = block, n

    def cancel(self):
        self.block.sink.add('/*cleanup- %s %d*/' % (self.block.label, self.n))
        self.block.cleanups = [c for c in self.block.cleanups if c[0] != self.n]

    def get_position(self):
        return self.n


class GhostParse(object):
    """contract model of the parse table (C03): a format and the destinations, which follow it"""
    _pyvc_model = True

    def __init__(self, w):
        self.w = w

    def clear(self):
        pass

    def is_empty(self):
        return self.w.parse == 0

    def get_parameters(self):
        fmt, dests = self.w.get_table()
        return [fmt] + dests

    def get_keywords(self):
        return None if self.w.keywords is None else list(self.w.keywords)

    def add_parameter(self, *a, **k):
        raise Unsupported('parse table changed outside a handler')


class GhostBuild(object):
    """contract model of the build table (C04)"""
    _pyvc_model = True

    def __init__(self, w):
        self.w = w

    def clear(self):
        pass

    def get_parameters(self, force_tuple_creation=False):
        o, c = ('"(', ')"') if force_tuple_creation else ('"', '"')
        return list([[o + c], [o + 'N' + c, 'B1'], [o + 'iN' + c, 'B2', 'B1']][self.w.build])

    def get_cleanups(self):
        return []

    def add_parameter(self, *a, **k):
        raise Unsupported('build table changed outside a handler')


class Refused(base.NotSupportedError):
    pass


def handler_class(cls, name):
    return type(name, (cls,), {'CTYPES': [], 'DIRECTIONS': [], '__abstractmethods__': frozenset(), '_pyvc_model': True, '__module__': 'contracts.wrap'})


class GhostParam(handler_class(Parameter, 'GhostParamBase')):
    """contract of a parameter handler's conversion: adds to the blocks of the wrapper, or fails"""

    def __init__(self, w, i):
        self._pyvc_w, self._pyvc_i = w, i
        self.ctype = SStr([Atom(w.CT(i))])
        self.name = SStr([Atom(w.NM(i))])

    def convert_python_to_c(self, wrapper):
        self._convert(wrapper, 'python_to_c')

    def convert_c_to_python(self, wrapper):
        self._convert(wrapper, 'c_to_python')

    def _convert(self, wrapper, how):
        w, i = self._pyvc_w, self._pyvc_i
        w.convert(how, wrapper)
        for (b, F, T) in w.folds:
            block = getattr(wrapper, b)
            block.write_code(SStr([Atom(T(i))]))


class GhostReturn(handler_class(ReturnValue, 'GhostReturnBase')):
    def __init__(self, w, ctype):
        self._pyvc_w = w
        self.ctype = ctype
        self.value = 'retval'

    def convert_c_to_python(self, wrapper):
        w = self._pyvc_w
        w.convert('return c_to_python', wrapper)
        wrapper.after_call.write_code('if (RETVAL_TO_PYTHON()) {')
        wrapper.after_call.write_error_return()
        wrapper.after_call.write_code('}')

    def convert_python_to_c(self, wrapper):
        w = self._pyvc_w
        w.convert('return python_to_c', wrapper)
        wrapper.after_call.write_code('if (RETVAL_FROM_PYTHON()) {')
        wrapper.after_call.write_error_return()
        wrapper.after_call.write_code('}')

    def get_c_error_return(self):
        return 'return ERR;'


class GhostTraits(object):
    _pyvc_model = True

    def __init__(self, t):
        self.ctype_no_const_no_ref = self.ctype_no_modifiers = t
        self.type_is_reference = False


class World(object):
    """an arbitrary wrapper"""
    _pyvc_model = True

    def __init__(self, E, blocks=('before_parse', 'before_call', 'after_call')):
        """blocks: the attributes of the wrapper that are its code blocks, in the order they are made"""
        self._pyvc_E = E
        self.block_order, self.blocks, self.cleanup_texts = [], {}, {}
        self.names = ctext.Names(E)
        self.runs = Runs()
        self.parse, self.keywords, self.build = 0, None, 0
        self.fails = False
        self.failed = None
        self.events = []
        n = self.n = z3.Int('len_parameters')
        E.assume(n >= 0)
        self.CT = z3.Function(E.fresh_name('ctype'), I, StrSort)
        self.NM = z3.Function(E.fresh_name('pname'), I, StrSort)
        self.folds = []
        cands, axs = [], []
        for b in blocks:
            T = z3.Function(E.fresh_name('text_' + b), I, StrSort)
            F, ax = fold_seq(E, 'all_' + b, n, lambda i, T=T: z3.Unit(T(i)))
            self.runs.add(F, (self.run_name(b), self, 'block%d' % len(self.folds)))
            self.folds.append((b, F, T))
            cands.append(Cand(b, 'list_s', F))
            axs.append(ax)
        self.seg = RecSeg('parameters', n, lambda e, i: GhostParam(self, i))
        E.loop_specs.append(LoopSpec(lambda t: t is self.seg, cands, axioms=lambda i: [a for ax in axs for a in ax(i)]))
        self.parameters = mklist([('s', self.seg)])
        E.class_models[base.CodeBlock] = lambda eng, *a, **k: GhostBlock(self, *a, **k)
        E.class_models[base.DeclarationsScope] = lambda eng, *a: GhostScope(self, *a)
        E.class_models[base.ParseTupleParameters] = lambda eng: GhostParse(self)
        E.class_models[base.BuildValueParameters] = lambda eng: GhostBuild(self)

    @property
    def E(self):
        return self._pyvc_E

    @staticmethod
    def run_name(b):
        return 'CONVERT_' + b.upper()

    def convert(self, how, wrapper):
        if self.fails:
            c = self.E.choose(3, 'conversion')
            self.failed = [None, 'missing', 'refused'][c] or self.failed
            if c == 1:
                raise NotImplementedError(how)
            if c == 2:
                raise Refused(how)

    def get_table(self):
        t = [['""'], ['"O"', '&D1'], ['"iO"', '&D2', '&D1'], ['"|O"', '&D1']][self.parse]
        return t[0], list(t[1:])

    def sink(self):
        return Texts(self.E, self.names, self.runs)


KNOWN = ['TARGET', 'HANDLER', 'THROWN', 'HOOK', 'TRANSFER', 'CONVERT_BEFORE_PARSE', 'CONVERT_BEFORE_CALL', 'CONVERT_AFTER_CALL', 'RETVAL_TO_PYTHON', 'RETVAL_FROM_PYTHON',
         'CLEANUP', 'PYTHON_CALL', 'RUN', 'ERR', 'PARSE_ERROR']
OPAQUE = ('HOOK', 'HANDLER', 'TRANSFER', 'CONVERT_BEFORE_PARSE', 'CONVERT_BEFORE_CALL', 'CONVERT_AFTER_CALL', 'RETVAL_TO_PYTHON', 'PYTHON_CALL', 'CLEANUP')


class GhostForward(ForwardWrapperBase):
    """a wrapper with an arbitrary call: it may throw, and then the lock is taken back before Python is used"""
    def generate_call(self):
        E, throws = self._pyvc_w.E, self._pyvc_throws
        self.before_call.write_code('TARGET();')
        if throws:
            self.before_call.write_code('if (THROWN()) {')
            E.call(ForwardWrapperBase.write_reacquire_gil, self, self.before_call)
            self.before_call.write_code('HANDLER();')
            if throws == 1:
                self.before_call.write_error_return()
            self.before_call.write_code('}')

    def _before_call_hook(self):
        self.before_call.write_code('if (HOOK()) {')
        self.before_call.write_error_return()
        self.before_call.write_code('}')

    def _before_return_hook(self):
        self.after_call.write_code('HOOK();')


def forward(E, unblock, fails=False, small=False, few=False):
    w = World(E)
    w.fails = fails
    w.parse, w.keywords, w.build = [(0, None, 0), (1, None, 1), (2, ('x', 'y'), 2), (3, ('x',), 0)][2 if small else 2 * E.choose(2, 'tables') if few else E.choose(4, 'tables')]
    kind = E.choose(3, 'result')
    ret = None if kind == 0 else GhostReturn(w, 'void' if kind == 1 else w.names.new('rtype', 'long'))
    if ret is not None:
        ret.type_traits = GhostTraits(ret.ctype)
    if ret is None:
        w.build = 0
    f = GhostForward.__new__(GhostForward)
    f._pyvc_w, f._pyvc_throws = w, E.choose(3, 'throws')
    force = [None, ForwardWrapperBase.PARSE_TUPLE, ForwardWrapperBase.PARSE_TUPLE_AND_KEYWORDS][E.choose(3, 'force')] if w.parse == 0 and not few else None
    E.call(ForwardWrapperBase.__init__, f, ret, w.parameters, 'return PARSE_ERROR;', 'return NULL;', force, False, unblock)
    f._pyvc_w, f._pyvc_throws = w, f._pyvc_throws
    f.deprecated = [False, True, w.names.new('message', 'msg')][2 if small else 2 * E.choose(2, 'deprecated') if few else E.choose(3, 'deprecated')]
    m = z3.Int('len_transfers')
    E.assume(m >= 0)
    T = z3.Function(E.fresh_name('transfer'), I, StrSort)
    F, ax = fold_seq(E, 'all_transfers', m, lambda i: z3.Unit(T(i)))
    w.runs.add(F, 'TRANSFER();')

    def make(e, i):
        def write(block):
            block.write_code(SStr([Atom(T(i))]))
        return write
    seg = RecSeg('transfers', m, make)
    f.transfers = mklist([('s', seg)])
    E.loop_specs.append(LoopSpec(lambda t: t is seg, [Cand('transfers', 'list_s', F)], axioms=ax))
    return w, f, ret


def evaluate(E, w, body, ret='PyObject *'):
    head = '%sF(PyObject *self, PyObject *args, PyObject *kwargs, PyObject **return_exception, PyObject *D1, int D2, PyObject *B1, int B2)\n{\n' % ret
    ex, u = ctext.run(head + body.rstrip() + '\n}\n', known=KNOWN)
    return ex
