"""C02 - contracts on DeclarationsScope (pybindgen/typehandlers/base.py).

Representation invariant: the keys of the name table are exactly the names that are
taken in the scope (every name handed out is a key).  declare/reserve: the returned name
was not a key before, is one afterwards, and no other key appears or disappears; a name
that is no key is returned unchanged.  By induction over any history of requests the
names handed out are pairwise different."""
import z3
from . import task, need
from .ghost import *
from pybindgen.typehandlers import base, codesink
from pybindgen.typehandlers.base import DeclarationsScope, CodeBlock, join_ctype_and_name


def sym_scope(E):
    real = DeclarationsScope()
    need(isinstance(real.__dict__.get('declared_variables'), dict), 'DeclarationsScope.declared_variables')
    need(isinstance(real.__dict__.get('_declarations'), codesink.MemoryCodeSink), 'DeclarationsScope._declarations')
    a = real.declare_variable('int', 'foo')
    b = real.declare_variable('int', 'foo')
    need(set(real.declared_variables) == {a, b} and all(isinstance(v, int) for v in real.declared_variables.values()),
         'keys of the table are the names taken')
    sc = DeclarationsScope.__new__(DeclarationsScope)
    sc.__dict__.update(real.__dict__)
    sc._declarations = GhostSink(E, 'decl', level=0)
    present = z3.Const(E.fresh_name('taken'), z3.ArraySort(StrSort, z3.BoolSort()))
    value = z3.Const(E.fresh_name('count'), z3.ArraySort(StrSort, z3.IntSort()))
    sc.declared_variables = PMap(present, value, StrSort, z3.IntSort())
    n = z3.String('n')
    E.assume(z3.ForAll([n], z3.Implies(z3.Select(present, n), z3.Select(value, n) >= 1), patterns=[z3.Select(present, n)]))
    return sc


def name_obligations(E, sc, p0, name, r, what):
    ip = E.interp
    E.prove(what + ' returns a name', isinstance(r, (str, SStr)), r)
    rz = E.z(r)
    m = sc.declared_variables
    q = z3.String(E.fresh_name('q'))
    E.prove(what + ': the name was not taken', z3.Not(z3.Select(p0, rz)))
    E.prove(what + ': a free base name is given unchanged', z3.Implies(z3.Not(z3.Select(p0, E.z(name))), rz == E.z(name)))
    E.prove(what + ': the name is taken afterwards', z3.Select(m.present, rz))
    E.prove(what + ': no other name becomes taken or free',
            z3.Implies(q != rz, z3.Select(m.present, q) == z3.Select(p0, q)))
    E.prove(what + ': counters stay positive', z3.Implies(z3.Select(m.present, q), z3.Select(m.value, q) >= 1))


def join_contract(E):
    J = z3.Function('joined', StrSort, StrSort, StrSort)

    def c(eng, ctype, name):
        return SStr([Atom(J(eng.z(ctype), eng.z(name)))])
    E.contracts[join_ctype_and_name] = c
    return J


def with_loops(E, sc):
    # partial correctness of the search for a free number: the table is not changed by it
    E.loop_specs.append(LoopSpec('while', [], invs=[]))


@task('C02', 'reserve_variable: a fresh name, a free base name unchanged, nothing else taken or released, nothing declared')
def t_reserve(E):
    sc = sym_scope(E)
    with_loops(E, sc)
    name = E.str('name', nonempty=True)
    p0 = sc.declared_variables.present
    out0 = mklist(sc._declarations.out.parts)
    k, r = E.outcome(DeclarationsScope.reserve_variable, sc, name)
    E.prove('reserve returns', k == 'ok', r)
    if k != 'ok':
        return
    name_obligations(E, sc, p0, name, r, 'reserve')
    E.prove('reserving declares nothing', E.eq(sc._declarations.out, out0))


@task('C02', 'declare_variable: a fresh name, a free base name unchanged, nothing else taken or released')
def t_declare(E):
    sc = sym_scope(E)
    with_loops(E, sc)
    J = join_contract(E)
    name = E.str('name', nonempty=True)
    ty = E.str('type', nonempty=True)
    p0 = sc.declared_variables.present
    out0 = E.interp.list_expr(sc._declarations.out)
    init = E.opt('initializer', lambda: E.str('initializer'))
    arr = E.opt('array', lambda: E.str('array'))
    k, r = E.outcome(DeclarationsScope.declare_variable, sc, ty, name, init, arr)
    E.prove('declare returns', k == 'ok', r)
    if k != 'ok':
        return
    name_obligations(E, sc, p0, name, r, 'declare')
    text = [J(E.z(ty), E.z(r))]
    if arr is not None:
        text.append(E.z(arr))
    if init is not None:
        text += [z3.StringVal(' = '), E.z(init)]
    text.append(z3.StringVal(';'))
    E.prove('exactly the returned name is declared, once, at the end, with type, array suffix and initializer',
            E.interp.list_expr(sc._declarations.out) == z3.Concat(out0, z3.Unit(FMT(0, z3.Concat(*text)))))


@task('C02', 'CodeBlock.declare_variable declares in the shared scope and returns the name given there')
def t_block(E):
    calls = []
    N = z3.Function('given_name', StrSort, StrSort)

    def c(eng, self, type_, name, initializer=None, array=None):
        calls.append((self, type_, name, initializer, array))
        return SStr([Atom(N(eng.z(name)))])
    E.contracts[DeclarationsScope.declare_variable] = c
    sc = DeclarationsScope()
    cb = CodeBlock('return NULL;', sc)
    name, ty, init, arr = E.str('name'), E.str('type'), E.str('init'), E.str('array')
    k, r = E.outcome(CodeBlock.declare_variable, cb, ty, name, init, arr)
    if k == 'exc':
        E.prove('only names with a colon are refused', z3.Contains(E.z(name), z3.StringVal(':')), r)
        E.prove('a refused name declares nothing', not calls)
        return
    E.prove('declared once in the scope of the block', len(calls) == 1 and calls[0][0] is sc)
    s, t, n, i, a = calls[0]
    E.prove('type, name, initializer and array passed on',
            E.interp.conj([E.eq(t, ty), E.eq(n, name), E.eq(i, init), E.eq(a, arr)]))
    E.prove('the name given is returned', E.z(r) == N(E.z(name)))


@task('C02', 'a scope with a parent shares its names; a new scope has none')
def t_init(E):
    if E.choose(2, 'parent'):
        parent = sym_scope(E)
        k, sc = E.outcome(DeclarationsScope, parent)
        E.prove('constructor accepts a parent', k == 'ok', sc)
        E.prove('names are shared with the parent', sc.declared_variables is parent.declared_variables)
        E.prove('declarations are its own', sc._declarations is not parent._declarations)
    else:
        k, sc = E.outcome(DeclarationsScope)
        E.prove('constructor', k == 'ok', sc)
        E.prove('a new scope has no names', len(sc.declared_variables) == 0)
    E.prove('and no declarations', E.eq(sc._declarations.lines, []))


@task('C02', 'clear forgets all names and declarations')
def t_clear(E):
    sc = sym_scope(E)
    k, r = E.outcome(DeclarationsScope.clear, sc)
    E.prove('clear returns', k == 'ok', r)
    m = sc.declared_variables
    if isinstance(m, PMap):
        q = z3.String(E.fresh_name('q'))
        E.prove('no name is taken', z3.Not(z3.Select(m.present, q)))
    else:
        E.prove('no name is taken', len(m) == 0)
    E.prove('no declarations', (not isinstance(sc._declarations, GhostSink)) and E.eq(sc._declarations.lines, []))


@task('C02', 'get_code_sink hands out the declarations')
def t_sink(E):
    sc = sym_scope(E)
    E.prove('the scope\'s own declarations', E.call(DeclarationsScope.get_code_sink, sc) is sc._declarations)
