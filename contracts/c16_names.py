"""C16 - contracts on the mangling functions (pybindgen/utils.py) and on the custom_name
properties (pybindgen/function.py, pybindgen/cppmethod.py).

mangle_name, every string: the result has only identifier characters; a string that has
only identifier characters is returned unchanged (so mangling is idempotent).  The
contract of mangle_name in its callers: M(s), a function of s with identifier characters
only, M(s) = s for identifiers.  custom_name: abstract state (derived name, visible name);
set(c): visible = c; set(None): visible = derived; get() = None iff visible = derived,
else visible."""
import z3
from . import task, need
from .ghost import *
from pyvc.values import IDCHARS, cs_within
from pybindgen import utils, function, cppmethod
from pybindgen.utils import mangle_name, get_mangled_name

M = z3.Function('mangled', StrSort, StrSort)


def identifier_chars(E, r):
    """the characters of r are those of identifiers (decided on the tracked character sets, which
    are over-approximations: a failure is undecided, the bounded suite decides it)"""
    ok = isinstance(r, str) and set(r) <= IDCHARS
    if isinstance(r, SStr):
        ok = all(set(p) <= IDCHARS if isinstance(p, str) else cs_within(p.cs, IDCHARS) for p in r.pieces)
    if not ok:
        E.abstract = True
    return ok


def mangle_contract(E):
    def c(eng, name):
        if isinstance(name, str) and set(name) <= IDCHARS:
            return name
        if isinstance(name, SStr) and all(set(p) <= IDCHARS if isinstance(p, str) else cs_within(p.cs, IDCHARS) for p in name.pieces):
            return name
        return SStr([Atom(M(eng.z(name)), cs=(True, IDCHARS))])
    E.contracts[mangle_name] = c


@task('C16', 'mangle_name: every string becomes identifier characters')
def t_any(E):
    k, r = E.outcome(mangle_name, E.str('name'))
    E.prove('mangling returns', k == 'ok', r)
    E.prove('only identifier characters', k == 'ok' and identifier_chars(E, r), r)


@task('C16', 'mangle_name: an identifier is left unchanged')
def t_ident(E):
    s = E.str('name', kind='ident')
    k, r = E.outcome(mangle_name, s)
    E.prove('unchanged', k == 'ok' and E.eq(r, s), r)


@task('C16', 'mangle_name: mangling again changes nothing')
def t_twice(E):
    k, r = E.outcome(mangle_name, E.str('name'))
    if k != 'ok':
        return
    k, r2 = E.outcome(mangle_name, r)
    identifier_chars(E, r)
    E.prove('idempotent', k == 'ok' and E.eq(r2, r), r2)


@task('C16', 'get_mangled_name: identifier characters for every name and template arguments; a function of its input')
def t_get(E):
    mangle_contract(E)
    name = E.str('name')
    n = E.choose(4, 'arguments')
    args = [E.str('arg%d' % i) for i in range(n)]
    k, r = E.outcome(get_mangled_name, name, tuple(args) if E.choose(2, 'kind') else list(args))
    E.prove('returns', k == 'ok', r)
    if k != 'ok':
        return
    E.prove('only identifier characters', identifier_chars(E, r), r)
    k, r2 = E.outcome(get_mangled_name, name, list(args))
    E.prove('the same input gives the same name', k == 'ok' and E.eq(r, r2), r2)
    if n == 0:
        k, r3 = E.outcome(mangle_name, name)
        E.prove('without template arguments it is the mangled name', k == 'ok' and E.eq(r, r3))


def wrappers():
    yield 'function', function.Function, 'function_name'
    yield 'method', cppmethod.CppMethod, 'method_name'


def prop_task(label, cls, attr):
    @task('C16', '%s.custom_name: reported back, visible, and removed again, after any history' % label)
    def t(E):
        D = SStr([Atom(z3.String(E.fresh_name('derived')), cs=(True, IDCHARS))])
        calls = []

        def derived(eng, base, targs):
            calls.append((base, targs))
            return D
        E.contracts[get_mangled_name] = derived
        p = cls.__dict__.get('custom_name')
        need(isinstance(p, property) and p.fget and p.fset, 'custom_name is a property')
        w = cls.__new__(cls)
        name = E.str('name', nonempty=True)
        setattr(w, attr, name)
        w.template_parameters = ()
        # any state reached before
        prev = E.opt('previous', lambda: E.str('previous', nonempty=True))
        w.mangled_name = D if prev is None else prev
        new = E.opt('new', lambda: E.str('new', nonempty=True))
        k, r = E.outcome(p.fset, w, new)
        E.prove('setting returns', k == 'ok', r)
        if k != 'ok':
            return
        E.prove('the visible name is the custom name, the derived one without it',
                E.eq(w.mangled_name, D if new is None else new), w.mangled_name)
        k, r = E.outcome(p.fget, w)
        E.prove('reading returns', k == 'ok', r)
        if new is None:
            E.prove('no custom name is reported', k == 'ok' and r is None, r)
        elif k == 'ok' and r is None:
            E.prove('only a custom name equal to the derived one is no custom name', E.eq(new, D))
        else:
            E.prove('the custom name is reported back', E.eq(r, new), r)
        E.prove('the derived name is that of the C++ name', all(b is name and tuple(t) == () for b, t in calls), calls)
    return t


for _l, _c, _a in wrappers():
    prop_task(_l, _c, _a)
