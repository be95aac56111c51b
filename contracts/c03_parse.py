"""C03 - contracts on ParseTupleParameters (pybindgen/typehandlers/base.py).

Abstract state: the sequence of registrations (template, values, name, optional)."""
import z3
from . import task, need
from .ghost import *
from pybindgen.typehandlers.base import ParseTupleParameters


def probe():
    p = ParseTupleParameters()
    need(list(p.__dict__) == ['_parse_tuple_items'] and p._parse_tuple_items == [], 'ParseTupleParameters state')
    v = ['&v']
    p.add_parameter('t', v, 'n', optional=True)
    p.add_parameter('u', v, 'm', prepend=True)
    need(p._parse_tuple_items == [('u', v, 'm', False), ('t', v, 'n', True)], 'representation of a registration')


class Items:
    """arbitrary sequence of n registrations, given by ghost functions of the position"""
    def __init__(self, E, named='any'):
        f = E.fresh_name
        self.E = E
        self.n = z3.Int(f('n'))
        E.assume(self.n >= 0)
        self.T = z3.Function(f('template'), I, StrSort)
        self.Vs = z3.Function(f('values'), I, SeqStr)
        self.N = z3.Function(f('name'), I, StrSort)
        self.NN = z3.Function(f('unnamed'), I, z3.BoolSort())
        self.O = z3.Function(f('optional'), I, z3.BoolSort())

        def make(e, i):
            e_values = mklist([('s', SeqSeg(self.Vs(i)))])
            nm = SStr([Atom(self.N(i))])
            if e.decide(self.NN(i)):
                nm = None
            return (SStr([Atom(self.T(i))]), e_values, nm, SBool(self.O(i)))
        self.seg = RecSeg('registrations', self.n, make)
        self.list = mklist([('s', self.seg)])


def sym_params(E):
    probe()
    p = ParseTupleParameters.__new__(ParseTupleParameters)
    it = Items(E)
    p._parse_tuple_items = it.list
    return p, it


@task('C03', 'a new parameter table is empty; clear empties it')
def t_init(E):
    probe()
    k, p = E.outcome(ParseTupleParameters)
    E.prove('empty', k == 'ok' and E.eq(p._parse_tuple_items, []))
    q, it = sym_params(E)
    k, r = E.outcome(ParseTupleParameters.clear, q)
    E.prove('clear empties', k == 'ok' and E.eq(q._parse_tuple_items, []))


@task('C03', 'add_parameter appends (prepends) exactly one registration and keeps the others in order')
def t_add(E):
    p, it = sym_params(E)
    t, nm = E.str('template'), E.opt('param_name', lambda: E.str('param_name'))
    vals = E.seq_str('param_values')
    prep, opt = E.bool('prepend'), E.bool('optional')
    k, r = E.outcome(ParseTupleParameters.add_parameter, p, t, vals, nm, prep, opt)
    E.prove('add_parameter returns', k == 'ok', r)
    if k != 'ok':
        return
    parts = list_parts(p._parse_tuple_items)
    E.prove('one registration more', len(parts) == 2)
    if len(parts) != 2:
        return
    new = [i for i, (kk, v) in enumerate(parts) if kk == 'e']
    E.prove('the others stay as they were', len(new) == 1 and parts[1 - new[0]][1] is it.seg)
    item = parts[new[0]][1]
    first = z3.BoolVal(new[0] == 0)
    E.prove('prepended ones come first, others last', first == E.z(prep))
    E.prove('the registration has the given template, values, name and optional flag',
            isinstance(item, tuple) and len(item) == 4 and
            E.interp.conj([E.eq(item[0], t), E.eq(item[1], vals), E.eq(item[2], nm), E.eq(item[3], opt)]))


@task('C03', 'get_parameters: format and destinations in registration order, one optional marker before the first optional one; misplaced optional ones are refused')
def t_get(E):
    p, it = sym_params(E)
    n = it.n
    # ghost: text of the format after i registrations
    some = z3.Function(E.fresh_name('some_optional_before'), I, z3.BoolSort())
    F = z3.Function(E.fresh_name('format'), I, StrSort)
    D = z3.Function(E.fresh_name('destinations'), I, SeqStr)
    bad = z3.Function(E.fresh_name('required_after_optional_before'), I, z3.BoolSort())

    def ax(i):
        return [z3.Not(some(z3.IntVal(0))), z3.Implies(i >= 0, some(i + 1) == z3.Or(some(i), it.O(i))),
                F(z3.IntVal(0)) == z3.StringVal(''),
                z3.Implies(i >= 0, F(i + 1) == z3.Concat(F(i), z3.If(z3.And(it.O(i), z3.Not(some(i))), z3.StringVal('|'), z3.StringVal('')), it.T(i))),
                z3.Not(bad(z3.IntVal(0))),
                z3.Implies(i >= 0, bad(i + 1) == z3.Or(bad(i), z3.And(some(i), z3.Not(it.O(i))))),
                D(z3.IntVal(0)) == z3.Empty(SeqStr),
                z3.Implies(i >= 0, D(i + 1) == z3.Concat(D(i), it.Vs(i)))]
    E.loop_specs.append(LoopSpec(None, [Cand('some optional', 'bool', some), Cand('format', 'join', F), Cand('format', 'str', F),
                                        Cand('destinations', 'list_s', D)], axioms=ax,
                                 invs=[('no required registration after an optional one so far', lambda L: z3.Not(bad(L.i)) if E.in_params_loop else None)]))
    E.in_params_loop = True
    k, r = E.outcome(ParseTupleParameters.get_parameters, p)
    E.prove('asking does not change the registrations', E.eq(p._parse_tuple_items, it.list))
    if k == 'exc':
        E.prove('the error is a ValueError', isinstance(r, ValueError), r)
        # an error means: some required registration has an optional one before it
        j = getattr(E, 'loop_index', None)
        if j is not None:
            E.prove('refused only when a required argument follows an optional one', z3.And(some(j), z3.Not(it.O(j))))
        return
    E.prove('a table is returned', isinstance(r, list))
    E.prove('format string first, then the destinations in registration order', E.interp.list_expr(r, SeqStr) ==
            z3.Concat(z3.Unit(z3.Concat(z3.StringVal('"'), F(n), z3.StringVal('"'))), D(n)))
    E.prove('no required registration follows an optional one', z3.Not(bad(n)))


@task('C03', 'get_parameters refuses a required registration after an optional one')
def t_refuse(E):
    p, it = sym_params(E)
    probe()
    # arbitrary registrations, an optional one, arbitrary optional ones dropped: the required one follows directly
    a, b = Items(E), Items(E)
    o = (E.str('t1'), E.seq_str('v1'), None, True)
    r_ = (E.str('t2'), E.seq_str('v2'), None, False)
    p._parse_tuple_items = mklist([('e', o), ('e', r_)])
    k, r = E.outcome(ParseTupleParameters.get_parameters, p)
    E.prove('refused', k == 'exc' and isinstance(r, ValueError), r)


@task('C03', 'get_keywords: the names in registration order, none if no registration is named, an error if only some are')
def t_kw(E):
    p, it = sym_params(E)
    n = it.n
    K = z3.Function(E.fresh_name('keywords'), I, SeqStr)

    def ax(i):
        return [K(z3.IntVal(0)) == z3.Empty(SeqStr),
                z3.Implies(i >= 0, K(i + 1) == z3.If(it.NN(i), K(i), z3.Concat(K(i), z3.Unit(it.N(i)))))]
    E.loop_specs.append(LoopSpec(None, [Cand('keywords', 'list_s', K)], axioms=ax))
    k, r = E.outcome(ParseTupleParameters.get_keywords, p)
    E.prove('asking does not change the registrations', E.eq(p._parse_tuple_items, it.list))
    if k == 'exc':
        E.prove('the error is a ValueError', isinstance(r, ValueError), r)
        return
    if r is None:
        E.prove('no keywords only if no registration is named', z3.Length(K(n)) == 0)
        return
    E.prove('names of the named registrations in order', E.interp.list_expr(r, SeqStr) == K(n))
    E.prove('one name per registration', z3.Length(K(n)) == n)
    E.prove('not empty', n > 0)


@task('C03', 'is_empty exactly when the table is the empty format without destinations')
def t_empty(E):
    probe()
    p = ParseTupleParameters()
    E.prove('empty', E.call(ParseTupleParameters.is_empty, p) is True)
    t = E.str('t', nonempty=True)
    E.call(ParseTupleParameters.add_parameter, p, t, E.seq_str('v'))
    E.prove('not empty', E.interp.truth_expr(E.call(ParseTupleParameters.is_empty, p)) is False or
            z3.Not(E.interp.truth_expr(E.call(ParseTupleParameters.is_empty, p))))
