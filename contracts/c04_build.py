"""C04 - contracts on BuildValueParameters (pybindgen/typehandlers/base.py).

Abstract state: the sequence of registrations (template, values, cleanup handle)."""
import z3
from . import task, need
from .ghost import *
from pybindgen.typehandlers.base import BuildValueParameters


def probe():
    p = BuildValueParameters()
    need(list(p.__dict__) == ['_build_value_items'] and p._build_value_items == [], 'BuildValueParameters state')
    v = ['v']
    h = object()
    p.add_parameter('t', v, cancels_cleanup=h)
    p.add_parameter('u', v, prepend=True)
    need(p._build_value_items == [('u', v, None), ('t', v, h)], 'representation of a registration')


class Items:
    """arbitrary sequence of n registrations, given by ghost functions of the position"""
    def __init__(self, E):
        f = E.fresh_name
        self.n = z3.Int(f('n'))
        E.assume(self.n >= 0)
        self.T = z3.Function(f('template'), I, StrSort)
        self.Vs = z3.Function(f('values'), I, SeqStr)
        self.H = z3.Function(f('handle'), I, StrSort)

        def make(e, i):
            return (SStr([Atom(self.T(i))]), mklist([('s', SeqSeg(self.Vs(i)))]), SStr([Atom(self.H(i))]))
        self.seg = RecSeg('registrations', self.n, make)
        self.list = mklist([('s', self.seg)])


def sym_params(E):
    probe()
    p = BuildValueParameters.__new__(BuildValueParameters)
    it = Items(E)
    p._build_value_items = it.list
    return p, it


@task('C04', 'a new value table is empty; clear empties it')
def t_init(E):
    probe()
    k, p = E.outcome(BuildValueParameters)
    E.prove('empty', k == 'ok' and E.eq(p._build_value_items, []))
    q, it = sym_params(E)
    k, r = E.outcome(BuildValueParameters.clear, q)
    E.prove('clear empties', k == 'ok' and E.eq(q._build_value_items, []))


@task('C04', 'add_parameter appends (prepends) exactly one value and keeps the others in order')
def t_add(E):
    p, it = sym_params(E)
    t = E.str('template')
    vals = E.seq_str('param_values')
    prep = E.bool('prepend')
    h = E.opt('cancels_cleanup', lambda: E.str('cancels_cleanup'))
    k, r = E.outcome(BuildValueParameters.add_parameter, p, t, vals, prep, h)
    E.prove('add_parameter returns', k == 'ok', r)
    if k != 'ok':
        return
    parts = list_parts(p._build_value_items)
    E.prove('one registration more', len(parts) == 2)
    if len(parts) != 2:
        return
    new = [i for i, (kk, v) in enumerate(parts) if kk == 'e']
    E.prove('the others stay as they were', len(new) == 1 and parts[1 - new[0]][1] is it.seg)
    item = parts[new[0]][1]
    E.prove('prepended ones come first, others last', z3.BoolVal(new[0] == 0) == E.z(prep))
    E.prove('the registration has the given template, values and cleanup handle',
            isinstance(item, tuple) and len(item) == 3 and
            E.interp.conj([E.eq(item[0], t), E.eq(item[1], vals), E.eq(item[2], h)]))


def get(E, force):
    p, it = sym_params(E)
    n = it.n
    F = z3.Function(E.fresh_name('format'), I, StrSort)
    D = z3.Function(E.fresh_name('values_so_far'), I, SeqStr)

    def ax(i):
        return [F(z3.IntVal(0)) == z3.StringVal(''), z3.Implies(i >= 0, F(i + 1) == z3.Concat(F(i), it.T(i))),
                D(z3.IntVal(0)) == z3.Empty(SeqStr), z3.Implies(i >= 0, D(i + 1) == z3.Concat(D(i), it.Vs(i)))]
    E.loop_specs.append(LoopSpec(None, [Cand('format', 'join', F), Cand('format', 'str', F), Cand('values', 'list_s', D)], axioms=ax))
    k, r = E.outcome(BuildValueParameters.get_parameters, p, force)
    E.prove('a table is returned', k == 'ok' and isinstance(r, list), r)
    E.prove('asking does not change the registrations', E.eq(p._build_value_items, it.list))
    if k != 'ok':
        return
    o, c = ('"(', ')"') if force else ('"', '"')
    E.prove('format string first, then the values in registration order', E.interp.list_expr(r, SeqStr) ==
            z3.Concat(z3.Unit(z3.Concat(z3.StringVal(o), F(n), z3.StringVal(c))), D(n)))


@task('C04', 'get_parameters: templates and values in registration order')
def t_get(E):
    get(E, False)


@task('C04', 'get_parameters with a forced tuple: the same, in parentheses')
def t_get_force(E):
    get(E, True)


@task('C04', 'get_cleanups: one handle per registration, in order')
def t_cleanups(E):
    p, it = sym_params(E)
    C = z3.Function(E.fresh_name('handles'), I, SeqStr)

    def ax(i):
        return [C(z3.IntVal(0)) == z3.Empty(SeqStr), z3.Implies(i >= 0, C(i + 1) == z3.Concat(C(i), z3.Unit(it.H(i))))]
    E.loop_specs.append(LoopSpec(None, [Cand('handles', 'list_s', C)], axioms=ax))
    k, r = E.outcome(BuildValueParameters.get_cleanups, p)
    E.prove('a list is returned', k == 'ok' and isinstance(r, list), r)
    E.prove('asking does not change the registrations', E.eq(p._build_value_items, it.list))
    if k != 'ok':
        return
    parts = list_parts(r)
    if len(parts) == 1 and parts[0][0] == 's' and parts[0][1].seqexpr() is None:
        seg = parts[0][1]
        E.prove('one handle per registration', seg.length() == it.n)
        i = z3.Int(E.fresh_name('i'))
        E.assume(z3.And(i >= 0, i < it.n))
        E.prove('the handles in registration order', E.eq(seg.element(E, i), SStr([Atom(it.H(i))])))
    else:
        E.prove('the handles in registration order', E.interp.list_expr(r, SeqStr) == C(it.n))
