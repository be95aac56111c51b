"""C07 - contracts on code sinks (pybindgen/typehandlers/codesink.py)."""
import z3
from . import task, need
from .ghost import *
from pybindgen.typehandlers import codesink
from pybindgen.typehandlers.codesink import CodeSink, MemoryCodeSink, FileCodeSink, NullCodeSink


def probe(o, names):
    for n in names:
        need(n in o.__dict__, '%s.%s' % (type(o).__name__, n))


def sym_sink(E, cls=MemoryCodeSink):
    """arbitrary sink state: any level, any stack of earlier levels, any lines"""
    real = cls(None) if cls is FileCodeSink else cls()
    probe(real, ['indent_level', 'indent_stack'])
    s = cls.__new__(cls)
    s.__dict__.update(real.__dict__)
    lv = z3.Int(E.fresh_name('level'))
    E.assume(lv >= 0)
    s.indent_level = SInt(lv)
    st = RecSeg('levels', z3.Int(E.fresh_name('depth')), lambda e, i: SInt(z3.Int(e.fresh_name('lvl'))))
    E.assume(st.n >= 0)
    s.indent_stack = mklist([('s', st)])
    if cls is MemoryCodeSink:
        probe(real, ['lines'])
        L = z3.Const(E.fresh_name('lines'), SeqStr)
        s.lines = mklist([('s', SeqSeg(L))])
    return s


def format_contract(E):
    """callee contract of _format_code: FL(level, code) as a fresh list"""
    def c(eng, self, code):
        ip = eng.interp
        return mklist([('s', SeqSeg(FL(ip.to_z3(self.indent_level), ip.to_z3(code))))])
    E.contracts[CodeSink._format_code] = c


@task('C07', '_format_code: one indented line per line of the text, in order')
def t_format(E):
    s = sym_sink(E)
    code = E.str('code')
    lines = SPLITNL(E.z(code))
    F, ax = fold_seq(E, 'fmt', None, lambda i: z3.Unit(z3.Concat(SPACES(E.z(s.indent_level)), lines[i])))
    E.loop_specs.append(LoopSpec(None, [Cand('lines so far', 'list_s', F)], axioms=ax))
    lv = s.indent_level
    k, r = E.outcome(CodeSink._format_code, s, code)
    E.prove('_format_code returns', k == 'ok', r)
    if k != 'ok':
        return
    n = z3.Length(lines)
    if isinstance(r, SList) and len(r.get_parts()) == 1 and isinstance(r.get_parts()[0][1], RecSeg):
        seg = r.get_parts()[0][1]
        i = z3.Int(E.fresh_name('k'))
        E.assume(z3.And(i >= 0, i < n))
        E.prove('_format_code: line count', seg.length() == n)
        E.prove('_format_code: each line is the level in spaces plus the text',
                E.eq(seg.element(E, i), SStr([Atom(SPACES(E.z(lv))), Atom(lines[i])])))
    else:
        E.prove('_format_code: lines in order, each the level in spaces plus the text',
                E.interp.list_expr(r, SeqStr) == F(n))
    E.prove('_format_code: sink state unchanged', E.eq(s.indent_level, lv))


@task('C07', '_format_code: a text without newline is exactly one line')
def t_format1(E):
    s = sym_sink(E)
    code = E.str('code', 'line')
    k, r = E.outcome(CodeSink._format_code, s, code)
    E.prove('single line', k == 'ok' and E.eq(r, [SStr([Atom(SPACES(E.z(s.indent_level))), code.pieces[0]])]))


@task('C07', '_format_code refuses non-text')
def t_format2(E):
    s = sym_sink(E)
    k, r = E.outcome(CodeSink._format_code, s, None)
    E.prove('None is refused', k == 'exc')


@task('C07', 'MemoryCodeSink.writeln appends exactly the formatted lines')
def t_mem_writeln(E):
    format_contract(E)
    s = sym_sink(E)
    old = mklist(s.lines.parts)
    code = E.str('code')
    lv = s.indent_level
    k, r = E.outcome(MemoryCodeSink.writeln, s, code)
    E.prove('writeln returns', k == 'ok')
    want = mklist(old.parts + [('s', SeqSeg(FL(E.z(lv), E.z(code))))])
    E.prove('lines == old lines ++ formatted text', E.eq(s.lines, want))
    E.prove('level unchanged', E.eq(s.indent_level, lv))


@task('C07', 'MemoryCodeSink.writeln() writes one empty line')
def t_mem_writeln0(E):
    format_contract(E)
    s = sym_sink(E)
    old = mklist(s.lines.parts)
    lv = s.indent_level
    k, r = E.outcome(MemoryCodeSink.writeln, s)
    want = mklist(old.parts + [('s', SeqSeg(FL(E.z(lv), z3.StringVal(''))))])
    E.prove('default text is empty', k == 'ok' and E.eq(s.lines, want))


@task('C07', 'MemoryCodeSink.flush_to hands every line over once, in order, then is empty')
def t_mem_flush_to(E):
    s = sym_sink(E)
    L = s.lines.parts[0][1].expr
    tgt = GhostSink(E, 'target')
    lvl = tgt.level
    W, ax = fold_seq(E, 'handed', None, lambda i: z3.Unit(FMT(E.z(lvl), RSTRIP(L[i]))))
    E.loop_specs.append(LoopSpec(None, [Cand('handed over', 'list_s', W)], axioms=ax))
    out0 = E.interp.list_expr(tgt.out)
    lv = s.indent_level
    k, r = E.outcome(MemoryCodeSink.flush_to, s, tgt)
    E.prove('flush_to returns', k == 'ok', r)
    E.prove('target == old target ++ every line once, in order',
            E.interp.list_expr(tgt.out) == z3.Concat(out0, W(z3.Length(L))))
    E.prove('sink is empty afterwards', E.eq(s.lines, []))
    E.prove('levels unchanged', E.interp.conj([E.eq(s.indent_level, lv), E.eq(tgt.level, lvl)]))


@task('C07', 'flush_to refuses a target that is not a sink')
def t_mem_flush_to_bad(E):
    s = sym_sink(E)
    k, r = E.outcome(MemoryCodeSink.flush_to, s, None)
    E.prove('refused', k == 'exc' and isinstance(r, AssertionError))


@task('C07', 'MemoryCodeSink.flush returns every line once, in order, and empties the sink')
def t_mem_flush(E):
    format_contract(E)
    s = sym_sink(E)
    L = s.lines.parts[0][1].expr
    lv = E.z(s.indent_level)
    W, ax = fold_seq(E, 'flushed', None, lambda i: FL(lv, L[i]))
    E.loop_specs.append(LoopSpec(None, [Cand('flushed', 'list_s', W)], axioms=ax))
    k, r = E.outcome(MemoryCodeSink.flush, s)
    E.prove('flush returns', k == 'ok', r)
    if k == 'ok':
        E.prove('text == formatted lines joined by newlines, newline-terminated',
                E.eq(r, SStr([Atom(JOIN(z3.StringVal('\n'), W(z3.Length(L)))), '\n'])))
        E.prove('sink is empty afterwards', E.eq(s.lines, []))


class GhostFile(object):
    def __init__(self, E):
        self.E = E
        self.text = ''

    def write(self, t):
        self.text = self.E.interp.binop(__import__('ast').Add, self.text, t)


GhostFile.__module__ = 'contracts.ghost'


@task('C07', 'FileCodeSink.writeln writes the formatted lines, newline-terminated')
def t_file_writeln(E):
    format_contract(E)
    s = sym_sink(E, FileCodeSink)
    probe(FileCodeSink(None), ['file'])
    s.file = GhostFile(E)
    code = E.str('code')
    lv = E.z(s.indent_level)
    k, r = E.outcome(FileCodeSink.writeln, s, code)
    E.prove('writeln returns', k == 'ok', r)
    if k == 'ok':
        E.prove('file text', E.eq(s.file.text, SStr([Atom(JOIN(z3.StringVal('\n'), FL(lv, E.z(code)))), '\n'])))


@task('C07', 'indent raises the level by the given amount and remembers the previous one')
def t_indent(E):
    for cls in (MemoryCodeSink, FileCodeSink, NullCodeSink):
        s = sym_sink(E, cls)
        lv, st = s.indent_level, mklist(s.indent_stack.parts)
        amount = E.int('amount')
        k, r = E.outcome(cls.indent, s, amount)
        E.prove('indent returns', k == 'ok', r)
        E.prove('level raised by the amount', E.eq(s.indent_level, SInt(lv.expr + amount.expr)))
        k, r = E.outcome(cls.unindent, s)
        E.prove('unindent returns', k == 'ok', r)
        E.prove('unindent undoes indent exactly', E.eq(s.indent_level, lv))
        E.prove('stack restored', E.eq(s.indent_stack, st))


@task('C07', 'indentation defaults to four')
def t_indent4(E):
    s = sym_sink(E)
    lv = s.indent_level
    k, r = E.outcome(MemoryCodeSink.indent, s)
    E.prove('default amount', k == 'ok' and E.eq(s.indent_level, SInt(lv.expr + 4)))


@task('C07', 'unindent pops exactly the most recent level')
def t_unindent(E):
    s = sym_sink(E)
    x = E.int('saved')
    below = mklist(s.indent_stack.parts)
    s.indent_stack = mklist(s.indent_stack.parts + [('e', x)])
    k, r = E.outcome(MemoryCodeSink.unindent, s)
    E.prove('level is the saved one', k == 'ok' and E.eq(s.indent_level, x))
    E.prove('stack loses exactly that entry', E.eq(s.indent_stack, below))


@task('C07', 'a new sink is empty at level zero')
def t_new(E):
    s = E.call(MemoryCodeSink)
    E.prove('level 0', E.eq(s.indent_level, 0))
    E.prove('no lines', E.eq(s.lines, []))
    E.prove('no saved levels', E.eq(s.indent_stack, []))


@task('C07', 'the null sink keeps nothing and cannot be flushed')
def t_null(E):
    s = sym_sink(E, NullCodeSink)
    before = dict(s.__dict__)
    k, r = E.outcome(NullCodeSink.writeln, s, E.str('code'))
    E.prove('write accepted', k == 'ok')
    E.prove('nothing kept', set(before) == set(s.__dict__) and all(s.__dict__[x] is before[x] for x in before))
    k, r = E.outcome(NullCodeSink.flush, s)
    E.prove('flush refused', k == 'exc' and isinstance(r, TypeError))
    k, r = E.outcome(NullCodeSink.flush_to, s, GhostSink(E))
    E.prove('flush_to refused', k == 'exc' and isinstance(r, TypeError))
