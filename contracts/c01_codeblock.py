"""C01 - contracts on CodeBlock (pybindgen/typehandlers/base.py)."""
import z3
from . import task, need
from .ghost import *
from pybindgen.typehandlers import base, codesink
from pybindgen.typehandlers.base import CodeBlock, DeclarationsScope

SORTED_REV = None


class GhostBlock(CodeBlock):
    """contract model of a predecessor block: only its live cleanups are visible"""
    def __init__(self, E):
        self.__dict__['_pyvc_cleanups'] = z3.Const(E.fresh_name('pred_cleanups'), SeqStr)

    def get_cleanup_code(self):
        return mklist([('s', SeqSeg(self.__dict__['_pyvc_cleanups']))])


GhostBlock.__module__ = 'contracts.ghost'
GhostBlock.get_cleanup_code.__module__ = 'contracts.ghost'


def sym_block(E, pred='any', live=None):
    """arbitrary block satisfying the representation invariant"""
    real = CodeBlock('return NULL;', DeclarationsScope())
    for n in ('sink', 'predecessor', '_cleanup_actions', '_last_cleanup_position', 'error_return', 'declarations'):
        need(n in real.__dict__, 'CodeBlock.' + n)
    need(isinstance(real._cleanup_actions, dict), 'cleanup table')
    h = real.add_cleanup_code('x')
    need(real._cleanup_actions == {h.get_position(): 'x'} and real._last_cleanup_position == h.get_position(), 'cleanup table')
    cb = CodeBlock.__new__(CodeBlock)
    cb.__dict__.update(real.__dict__)
    cb.sink = GhostSink(E)
    if pred == 'any':
        pred = None if E.choose(2, 'predecessor') == 0 else GhostBlock(E)
    cb.predecessor = pred
    cb._cleanup_actions = int_map(E, 'cleanups')
    last = z3.Int(E.fresh_name('last'))
    E.assume(last >= 0)
    cb._last_cleanup_position = SInt(last)
    k = z3.Int('k')
    E.assume(z3.ForAll([k], z3.Implies(z3.Select(cb._cleanup_actions.present, k), z3.And(k >= 1, k <= last)),
                       patterns=[z3.Select(cb._cleanup_actions.present, k)]))
    cb.error_return = E.str('error_return')
    return cb


def rep_inv(E, cb, name):
    k = z3.Int(E.fresh_name('key'))
    m = cb._cleanup_actions
    last = E.z(cb._last_cleanup_position)
    E.prove(name + ': every live position lies between 1 and the last one handed out',
            z3.Implies(z3.Select(m.present, k), z3.And(k >= 1, k <= last)))


def clean_contract(E):
    """contract of get_cleanup_code used by its callers: the block's live cleanups,
    newest first, as one sequence; the call changes nothing"""
    def c(eng, self):
        if not hasattr(self, '_pyvc_clean'):
            self.__dict__['_pyvc_clean'] = z3.Const(eng.fresh_name('live_cleanups'), SeqStr)
        return mklist([('s', SeqSeg(self.__dict__['_pyvc_clean']))])
    E.contracts[CodeBlock.get_cleanup_code] = c


@task('C01', 'a new block has no cleanups and writes to its own sink')
def t_init(E):
    pred = None if E.choose(2, 'pred') == 0 else GhostBlock(E)
    err = E.str('error_return')
    decl = DeclarationsScope()
    k, cb = E.outcome(CodeBlock, err, decl, pred)
    E.prove('constructor accepts a scope and an optional predecessor', k == 'ok', cb)
    if k == 'ok':
        E.prove('no live cleanup', len(cb._cleanup_actions) == 0)
        E.prove('error return kept', E.eq(cb.error_return, err))
        E.prove('predecessor kept', cb.predecessor is pred)
        E.prove('declarations kept', cb.declarations is decl)
        r = E.call(CodeBlock.get_cleanup_code, cb)
        E.prove('cleanups of a new block are those of its predecessor', E.eq(r, pred.get_cleanup_code() if pred else []))


@task('C01', 'add_cleanup_code makes the action live, newer than every live one, and nothing else changes')
def t_add(E):
    cb = sym_block(E)
    m0 = cb._cleanup_actions.copy()
    last0 = E.z(cb._last_cleanup_position)
    out0 = mklist(cb.sink.out.parts)
    code = E.str('action')
    k, h = E.outcome(CodeBlock.add_cleanup_code, cb, code)
    E.prove('add returns a handle', k == 'ok' and isinstance(h, CodeBlock.CleanupHandle), h)
    if k != 'ok':
        return
    pos = E.z(E.call(h.get_position))
    m = cb._cleanup_actions
    q = z3.Int(E.fresh_name('q'))
    E.prove('the position was free', z3.Not(z3.Select(m0.present, pos)))
    E.prove('the position is newer than every live one', z3.Implies(z3.Select(m0.present, q), q < pos))
    E.prove('the action is live', z3.Select(m.present, pos))
    E.prove('with its text', z3.Select(m.value, pos) == E.z(code))
    E.prove('no other action appears or disappears',
            z3.Implies(q != pos, z3.Select(m.present, q) == z3.Select(m0.present, q)))
    E.prove('no other action changes',
            z3.Implies(z3.And(q != pos, z3.Select(m0.present, q)), z3.Select(m.value, q) == z3.Select(m0.value, q)))
    E.prove('nothing is written', E.eq(cb.sink.out, out0))
    E.prove('the handle belongs to this block', h.code_block is cb)
    rep_inv(E, cb, 'after add')
    E.prove('positions only grow', E.z(cb._last_cleanup_position) > last0)


def cancel(E, how):
    cb = sym_block(E)
    m0 = cb._cleanup_actions.copy()
    last0 = cb._last_cleanup_position
    pos = E.int('position')
    E.assume(z3.Select(m0.present, pos.expr))
    h = CodeBlock.CleanupHandle(cb, pos)
    if how == 'cancel':
        k, r = E.outcome(CodeBlock.CleanupHandle.cancel, h)
    else:
        k, r = E.outcome(CodeBlock.remove_cleanup_code, cb, h)
    E.prove('cancelling a live action succeeds', k == 'ok', r)
    m = cb._cleanup_actions
    q = z3.Int(E.fresh_name('q'))
    E.prove('the action is no longer live', z3.Not(z3.Select(m.present, pos.expr)))
    E.prove('every other action stays live', z3.Implies(q != pos.expr, z3.Select(m.present, q) == z3.Select(m0.present, q)))
    E.prove('no other action changes', z3.Implies(z3.And(q != pos.expr, z3.Select(m0.present, q)),
                                                 z3.Select(m.value, q) == z3.Select(m0.value, q)))
    E.prove('positions are not reused', E.eq(cb._last_cleanup_position, last0))
    rep_inv(E, cb, 'after cancel')


@task('C01', 'CleanupHandle.cancel removes that action and no other')
def t_cancel(E):
    cancel(E, 'cancel')


@task('C01', 'remove_cleanup_code removes that action and no other')
def t_remove(E):
    cancel(E, 'remove')


@task('C01', 'get_cleanup_code: own live actions newest first, then the predecessor\'s; nothing changes')
def t_get(E):
    cb = sym_block(E)
    m = cb._cleanup_actions
    n, K, V = m.n, m.K, m.V
    asc, ax1 = fold_seq(E, 'ascending', n, lambda i: z3.Unit(V(i)))
    desc, ax2 = fold_seq(E, 'descending', n, lambda i: z3.Unit(V(n - 1 - i)))
    # lemma (list reversal): reversing the ascending enumeration gives the descending one
    E.assume(REV_S(asc(n)) == desc(n))
    E.loop_specs.append(LoopSpec(None, [Cand('ascending', 'list_s', asc), Cand('descending', 'list_s', desc)],
                                 axioms=lambda i: ax1(i) + ax2(i)))
    E.folds = [(n, V, asc(n)), (n, lambda i: V(n - 1 - i), desc(n))]
    m0 = m.copy()
    k, r = E.outcome(CodeBlock.get_cleanup_code, cb)
    E.prove('get_cleanup_code returns', k == 'ok', r)
    if k != 'ok':
        return
    want = [desc(n)]
    if cb.predecessor is not None:
        want.append(cb.predecessor.__dict__['_pyvc_cleanups'])
    want = z3.Concat(*want) if len(want) > 1 else want[0]
    E.prove('own live actions newest first, then the predecessor\'s', seq_of(E, r) == want)
    E.prove('asking does not consume them', z3.And(cb._cleanup_actions.present == m0.present,
                                                 cb._cleanup_actions.value == m0.value))
    E.prove('nothing is written', E.eq(cb.sink.out, cb.sink.out0))


def seq_of(E, l):
    """z3 sequence of a list of strings; record segments are matched with the folds"""
    out = []
    for kk, v in list_parts(l):
        if kk == 'e':
            out.append(z3.Unit(E.z(v)))
            continue
        e = v.seqexpr()
        if e is None:
            for (n, V, total) in getattr(E, 'folds', []):
                i = z3.Int(E.fresh_name('m'))
                x = v.element(E, i)
                if not isinstance(x, (str, SStr)):
                    continue
                if E.check(z3.Not(v.length() == n)) == z3.unsat and \
                        E.check(z3.And(i >= 0, i < n), z3.Not(E.z(x) == V(i))) == z3.unsat:
                    e = total
                    break
        if e is None:
            raise Unsupported('list segment without ghost sequence')
        out.append(e)
    if not out:
        return z3.Empty(SeqStr)
    return z3.Concat(*out) if len(out) > 1 else out[0]


def cleanup_loop(E, cb, level):
    """ghost sequence of the live cleanups as written at a level, and the loop material"""
    C = cb.get_cleanup_code if False else None
    seq = E.call(CodeBlock.get_cleanup_code, cb).parts[0][1].expr
    W, ax = fold_seq(E, 'cleanups_written', None, lambda i: z3.Unit(FMT(level, seq[i])))
    E.loop_specs.append(LoopSpec(None, [Cand('written', 'list_s', W)], axioms=ax))
    return W(z3.Length(seq))


@task('C01', 'write_cleanup writes every live action once, newest first, and consumes none')
def t_write_cleanup(E):
    clean_contract(E)
    cb = sym_block(E, None)
    out0 = E.interp.list_expr(cb.sink.out)
    lv = E.z(cb.sink.level)
    W = cleanup_loop(E, cb, lv)
    m0 = cb._cleanup_actions.copy()
    k, r = E.outcome(CodeBlock.write_cleanup, cb)
    E.prove('write_cleanup returns', k == 'ok', r)
    E.prove('exactly the live cleanups are written, in order', E.interp.list_expr(cb.sink.out) == z3.Concat(out0, W))
    E.prove('they stay live', z3.And(cb._cleanup_actions.present == m0.present, cb._cleanup_actions.value == m0.value))
    E.prove('indentation unchanged', E.eq(cb.sink.level, SInt(lv)))


@task('C01', 'write_error_return writes the live cleanups, then the error return')
def t_write_error_return(E):
    clean_contract(E)
    cb = sym_block(E, None)
    out0 = E.interp.list_expr(cb.sink.out)
    lv = E.z(cb.sink.level)
    W = cleanup_loop(E, cb, lv)
    k, r = E.outcome(CodeBlock.write_error_return, cb)
    E.prove('write_error_return returns', k == 'ok', r)
    E.prove('cleanups then error return', E.interp.list_expr(cb.sink.out) ==
            z3.Concat(out0, W, z3.Unit(FMT(lv, E.z(cb.error_return)))))


@task('C01', 'write_error_check: failure cleanup, live cleanups newest first, error return, inside the test')
def t_error_check(E):
    clean_contract(E)
    cb = sym_block(E, None)
    out0 = E.interp.list_expr(cb.sink.out)
    lv = E.z(cb.sink.level)
    W = cleanup_loop(E, cb, lv + 4)
    expr = E.str('failure_expression')
    fc = E.opt('failure_cleanup', lambda: E.str('failure_cleanup'))
    m0 = cb._cleanup_actions.copy()
    k, r = E.outcome(CodeBlock.write_error_check, cb, expr, fc)
    E.prove('write_error_check returns', k == 'ok', r)
    want = [out0, z3.Unit(FMT(lv, z3.Concat(z3.StringVal('if ('), E.z(expr), z3.StringVal(') {'))))]
    if fc is not None:
        want.append(z3.Unit(FMT(lv + 4, E.z(fc))))
    want += [W, z3.Unit(FMT(lv + 4, E.z(cb.error_return))), z3.Unit(FMT(lv, z3.StringVal('}')))]
    E.prove('error exit: failure cleanup, live cleanups, error return', E.interp.list_expr(cb.sink.out) == z3.Concat(*want))
    E.prove('cleanups stay live', z3.And(cb._cleanup_actions.present == m0.present,
                                       cb._cleanup_actions.value == m0.value))
    E.prove('indentation restored', E.eq(cb.sink.level, SInt(lv)))


@task('C01', 'write_code writes the code once')
def t_write_code(E):
    cb = sym_block(E)
    out0 = E.interp.list_expr(cb.sink.out)
    c = E.str('code')
    k, r = E.outcome(CodeBlock.write_code, cb, c)
    E.prove('written once', k == 'ok' and E.interp.list_expr(cb.sink.out) == z3.Concat(out0, z3.Unit(FMT(E.z(cb.sink.level), E.z(c)))))
    lv = cb.sink.level
    a = E.int('amount')
    E.call(CodeBlock.indent, cb, a)
    E.prove('indent passed on', E.eq(cb.sink.level, SInt(lv.expr + a.expr)))
    E.call(CodeBlock.unindent, cb)
    E.prove('unindent passed on', E.eq(cb.sink.level, lv))


@task('C01', 'clear forgets all cleanups and all code')
def t_clear(E):
    cb = sym_block(E)
    err, pred, decl = cb.error_return, cb.predecessor, cb.declarations
    k, r = E.outcome(CodeBlock.clear, cb)
    E.prove('clear returns', k == 'ok', r)
    c = cb._cleanup_actions
    E.prove('no live cleanup', (not isinstance(c, PMap)) and len(c) == 0 if not isinstance(c, PMap)
            else z3.Not(z3.Select(c.present, z3.Int(E.fresh_name('q')))))
    E.prove('no code', not isinstance(cb.sink, GhostSink) and E.eq(cb.sink.lines, []))
    E.prove('error return, predecessor and scope kept', E.interp.conj([E.eq(cb.error_return, err)]) if cb.predecessor is pred
            and cb.declarations is decl else False)
