"""Ghost functions, contract models and set-up helpers shared by the contracts."""
import z3
from pyvc.values import *
from pyvc.engine import Cand, LoopSpec
from pybindgen.typehandlers import codesink, base

I = z3.IntSort()
# text of one line written at an indentation level (contract of a sink's writeln)
FMT = z3.Function('written', I, StrSort, StrSort)
# the lines of a text, indented (contract of _format_code)
FL = z3.Function('format_lines', I, StrSort, SeqStr)


def fold_seq(eng, name, n, elem, sort=SeqStr):
    """ghost fold: F(0)=empty, F(i+1)=F(i)++elem(i); returns (F, axioms)
    elem(i) -> z3 Seq term appended at step i"""
    F = z3.Function(eng.fresh_name(name), I, sort)

    def axioms(i):
        return [F(z3.IntVal(0)) == z3.Empty(sort), z3.Implies(i >= 0, F(i + 1) == z3.Concat(F(i), elem(i)))]
    return F, axioms


def fold_str(eng, name, elem, init=''):
    F = z3.Function(eng.fresh_name(name), I, StrSort)

    def axioms(i):
        return [F(z3.IntVal(0)) == z3.StringVal(init), z3.Implies(i >= 0, F(i + 1) == z3.Concat(F(i), elem(i)))]
    return F, axioms


def fold_or(eng, name, elem):
    F = z3.Function(eng.fresh_name(name), I, z3.BoolSort())

    def axioms(i):
        return [z3.Not(F(z3.IntVal(0))), z3.Implies(i >= 0, F(i + 1) == z3.Or(F(i), elem(i, F)))]
    return F, axioms


class GhostSink(codesink.MemoryCodeSink):
    """contract model of a code sink: 'out' is the sequence of lines written so far"""
    _pyvc_model = True

    def __init__(self, eng, name='sink', level=None):
        self._pyvc_eng = eng
        self.level = SInt(z3.Int(eng.fresh_name(name + '_level'))) if level is None else level
        self.stack = []
        self.out = mklist([('s', SeqSeg(z3.Const(eng.fresh_name(name + '_out0'), SeqStr)))])
        self.out0 = mklist(self.out.parts)
        self.events = 0

    @property
    def eng(self):
        return self._pyvc_eng

    def fmt(self, text):
        ip = self.eng.interp
        return SStr([Atom(FMT(ip.to_z3(self.level), ip.to_z3(text)))])

    def writeln(self, line=''):
        self.eng.interp.note_write(self.out)
        self.out.set_parts(self.out.get_parts() + [('e', self.fmt(line))])

    def indent(self, level=4):
        self.eng.interp.note_write(self, 'level')
        self.stack.append(self.level)
        ip = self.eng.interp
        self.level = SInt(z3.simplify(ip.to_z3(self.level) + ip.to_z3(level)))

    def unindent(self):
        self.eng.interp.note_write(self, 'level')
        if not self.stack:
            raise IndexError('pop from empty list')
        self.level = self.stack.pop()

    def flush_to(self, sink):
        raise Unsupported('flush_to of ghost sink')

    def flush(self):
        raise Unsupported('flush of ghost sink')

    def added(self):
        return self.out


def int_map(eng, name):
    """arbitrary finite map int -> string with its sorted enumeration"""
    present = z3.Const(eng.fresh_name(name + '_present'), z3.ArraySort(I, z3.BoolSort()))
    value = z3.Const(eng.fresh_name(name + '_value'), z3.ArraySort(I, StrSort))
    m = PMap(present, value, I, StrSort)
    n = z3.Int(eng.fresh_name(name + '_n'))
    eng.assume(n >= 0)
    K = z3.Function(eng.fresh_name(name + '_key'), I, I)      # sorted enumeration
    PK = z3.Function(eng.fresh_name(name + '_pkey'), I, I)    # enumeration in some order
    V = lambda i: z3.Select(value, K(i))

    def sorted_items():
        def make(e, i):
            e.assume(z3.Select(present, K(i)))
            return (SInt(K(i)), SStr([Atom(V(i))]))
        s = RecSeg('sorted_items', n, make)
        s.tag = 'sorted'
        return s

    sseg = sorted_items()

    def keys_sorted():
        def make(e, i):
            e.assume(z3.Select(present, K(i)))
            return SInt(K(i))
        s = RecSeg('sorted_keys', n, make)
        s.base = sseg
        return s

    def enum(e, what):
        if not (m.present.eq(present) and m.value.eq(value)):
            raise Unsupported('enumeration of a modified map')
        if what == 'items':
            s = RecSeg('items', n, lambda e, i: (SInt(PK(i)), SStr([Atom(z3.Select(value, PK(i)))])))
            s.sorted_seg = lambda e: sseg
        elif what == 'keys':
            s = RecSeg('keys', n, lambda e, i: SInt(PK(i)))
            s.sorted_seg = lambda e: keys_sorted()
        else:
            s = RecSeg('values', n, lambda e, i: SStr([Atom(z3.Select(value, PK(i)))]))
        return mklist([('s', s)])
    m.enum = enum
    m.n, m.K, m.V, m.sseg = n, K, V, sseg
    return m
