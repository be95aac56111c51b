"""C06 - contracts on TypeMatcher (pybindgen/typehandlers/base.py).

NORM: normal form of a type string (contract of normalize_type_string); NOMOD: its normal
form without modifiers (contract of TypeTraits); both arbitrary functions here (C05)."""
import z3
from . import task, need
from .ghost import *
from pyvc.interp import find_def
from pybindgen.typehandlers import base, ctypeparser
from pybindgen.typehandlers.base import TypeMatcher, TypeTransformation, TypeLookupError

NORM = z3.Function('normal_form', StrSort, StrSort)
NOMOD = z3.Function('normal_form_without_modifiers', StrSort, StrSort)


class GhostText(object):
    _pyvc_model = True

    def __init__(self, e):
        self._pyvc_expr = e

    def __str__(self):
        return SStr([Atom(self._pyvc_expr)])


class GhostTraits(object):
    """contract model of TypeTraits: the normalised type and the one without modifiers"""
    _pyvc_model = True

    def __init__(self, eng, name):
        z = eng.z(name)
        self._pyvc_name = z
        self.ctype = GhostText(NORM(z))
        self.ctype_no_modifiers = GhostText(NOMOD(z))


def probe():
    m = TypeMatcher()
    need(set(m.__dict__) == {'_types', '_transformations', '_type_aliases', '_type_aliases_rev'}, 'TypeMatcher state')
    m.register('const int', 5)
    need(m._types == {'int const': 5}, 'TypeMatcher._types')
    m.add_type_alias('A', 'B')
    need(m._type_aliases == {'B': 'A'} and m._type_aliases_rev == {'A': ['B']}, 'alias tables')
    need(m._transformations == [], 'transformations')


def common(E):
    E.contracts[ctypeparser.normalize_type_string] = lambda eng, s: SStr([Atom(NORM(eng.z(s)))])
    E.class_models[ctypeparser.TypeTraits] = lambda eng, s: GhostTraits(eng, s)
    E.contracts[base.logger.debug] = lambda eng, *a: None


def smap(E, name, vsort):
    p = z3.Const(E.fresh_name(name + '_known'), z3.ArraySort(StrSort, z3.BoolSort()))
    v = z3.Const(E.fresh_name(name), z3.ArraySort(StrSort, vsort))
    if vsort == StrSort:
        return PMap(p, v, StrSort, vsort)
    return PMap(p, v, StrSort, vsort)


def sym_matcher(E):
    probe()
    m = TypeMatcher.__new__(TypeMatcher)
    m._types = smap(E, 'types', Val)
    m._type_aliases = smap(E, 'alias', StrSort)
    m._type_aliases_rev = {}
    m._transformations = []
    return m


def same_map(a, b):
    return z3.And(a.present == b.present, a.value == b.value)


@task('C06', 'register: a new type is recorded under its normal form; a registered one is refused and nothing changes')
def t_register(E):
    common(E)
    m = sym_matcher(E)
    t0, a0 = m._types.copy(), m._type_aliases.copy()
    name, h = E.str('name'), E.val('handler')
    k, r = E.outcome(TypeMatcher.register, m, name, h)
    n = NORM(E.z(name))
    q = z3.String(E.fresh_name('q'))
    E.prove('aliases unchanged', same_map(m._type_aliases, a0))
    if k == 'exc':
        E.prove('the error is a ValueError', isinstance(r, ValueError), r)
        E.prove('refused only if registered', z3.Select(t0.present, n))
        E.prove('a failed registration changes nothing', same_map(m._types, t0))
        return
    E.prove('was not registered', z3.Not(z3.Select(t0.present, n)))
    E.prove('is registered', z3.And(z3.Select(m._types.present, n), z3.Select(m._types.value, n) == E.z(h)))
    E.prove('no other type changes', z3.Implies(q != n, z3.And(z3.Select(m._types.present, q) == z3.Select(t0.present, q),
            z3.Select(m._types.value, q) == z3.Select(t0.value, q))))


@task('C06', 'raw lookup: a registered name yields its own handler; otherwise only handlers of names related by aliases; nothing changes')
def t_raw(E):
    common(E)
    m = sym_matcher(E)
    R = z3.Function('related', StrSort, StrSort, z3.BoolSort())      # reflexive transitive closure of "alias of"
    x = z3.String('x')
    E.assume(z3.ForAll([x], R(x, x)))
    name = E.str('name')
    n = E.z(name)
    al = m._type_aliases
    rev = E.choose(3, 'reverse aliases')
    revs = [E.str('rev%d' % i) for i in range(rev)]

    class Rev(dict):
        pass
    m._type_aliases_rev = GhostRev(E, n, revs)
    rec = []

    def contract(eng, self, nm, tried):
        """callee contract of the recursive call: handler of a name related to the argument, or KeyError"""
        rec.append((nm, list(list_parts(tried))))
        if eng.choose(2, 'found'):
            z = z3.String(eng.fresh_name('found_at'))
            eng.assume(R(eng.z(nm), z))
            eng.assume(z3.Select(m._types.present, z))
            v = SVal(z3.Select(m._types.value, z))
            rec[-1] += (z,)
            return v
        raise KeyError
    f = TypeMatcher._raw_lookup_with_alias_support_recursive
    tried = mklist([])
    t0, a0 = m._types.copy(), al.copy()
    E.recursive_contract = (f, contract)
    first = [True]

    def rec_contract(eng, self, nm, tr):
        if first[0]:
            first[0] = False
            del eng.contracts[f]
            try:
                eng.contracts[f] = lambda e2, s2, n2, t2: contract(e2, s2, n2, t2)
                return eng.interp.call_native_source(f, find_def(f), [self, nm, tr], {})
            finally:
                eng.contracts[f] = rec_contract
        return contract(eng, self, nm, tr)
    E.contracts[f] = rec_contract
    k, r = E.outcome(TypeMatcher._raw_lookup_with_alias_support, m, name)
    E.prove('types unchanged', same_map(m._types, t0))
    E.prove('aliases unchanged', same_map(al, a0))
    for c in rec:
        nm = E.z(c[0])
        E.prove('only names the type is an alias of, or its aliases, are tried',
                z3.Or(z3.And(z3.Select(al.present, n), nm == z3.Select(al.value, n)), *[nm == E.z(v) for v in revs]))
    if k == 'exc':
        E.prove('the error is a KeyError', isinstance(r, KeyError), r)
        E.prove('a registered name never fails', z3.Not(z3.Select(t0.present, n)))
        E.prove('every name it is an alias of was tried, unless it is the name itself',
                z3.Implies(z3.And(z3.Select(al.present, n), z3.Select(al.value, n) != n),
                           z3.Or(*[E.z(c[0]) == z3.Select(al.value, n) for c in rec]) if rec else False))
        for v in revs:
            E.prove('every alias of it was tried, unless it is the name itself',
                    z3.Implies(E.z(v) != n, z3.Or(*[E.z(c[0]) == E.z(v) for c in rec]) if rec else False))
        return
    if not rec:
        E.prove('direct hit', z3.And(z3.Select(t0.present, n), E.z(r) == z3.Select(t0.value, n)))
    else:
        E.prove('aliases are only asked for unregistered names', z3.Not(z3.Select(t0.present, n)))
        E.prove('the handler found first is returned', len(rec[-1]) == 3 and E.z(r) == z3.Select(t0.value, rec[-1][2]))


class GhostRev(object):
    """reverse alias table: the aliases of 'name' are given, everything else is never asked"""
    _pyvc_model = True

    def __init__(self, E, n, revs):
        self._pyvc_E, self._pyvc_n, self.revs = E, n, revs

    def get(self, key, default=None):
        self._ask(key)
        return mklist([('e', v) for v in self.revs]) if self.revs else default

    def _ask(self, key):
        self._pyvc_E.prove('the alias table is asked for the name itself', self._pyvc_E.z(key) == self._pyvc_n)

    def __getitem__(self, key):
        self._ask(key)
        if not self.revs:
            raise KeyError(key)
        return mklist([('e', v) for v in self.revs])

    def __contains__(self, key):
        self._ask(key)
        return bool(self.revs)


@task('C06', 'lookup: direct hit, else the first applicable transformation whose untransformed type is known, else TypeLookupError; nothing changes')
def t_lookup(E):
    common(E)
    m = sym_matcher(E)
    t0, a0 = m._types.copy(), m._type_aliases.copy()
    Known = z3.Function('known', StrSort, z3.BoolSort())
    H = z3.Function('handler_of', StrSort, Val)
    f = TypeMatcher._raw_lookup_with_alias_support

    def raw(eng, self, nm):
        z = eng.z(nm)
        if eng.decide(Known(z)):
            return SVal(H(z))
        raise KeyError
    E.contracts[f] = raw
    n = z3.Int(E.fresh_name('n'))
    E.assume(n >= 0)
    Tr = z3.Function('transformation', I, Val)
    Applies = z3.Function('applies', I, StrSort, z3.BoolSort())
    Unt = z3.Function('untransformed', I, StrSort, StrSort)
    name = E.str('name')
    nz = E.z(name)

    def make(e, i):
        return GhostTransf(e, i, Tr(i), Applies, Unt, nz)
    seg = RecSeg('transformations', n, make)
    m._transformations = mklist([('s', seg)])
    hit = lambda i: z3.And(Applies(i, nz), Known(NOMOD(Unt(i, nz))))
    found = z3.Function('found_before', I, z3.BoolSort())

    def ax(i):
        return [z3.Not(found(z3.IntVal(0))), z3.Implies(i >= 0, found(i + 1) == z3.Or(found(i), hit(i)))]
    E.loop_specs.append(LoopSpec(None, [], axioms=ax, invs=[('no earlier transformation fits', lambda L: z3.Not(found(L.i)))]))
    E.loop_index = None
    k, r = E.outcome(TypeMatcher.lookup, m, name)
    E.prove('types and aliases unchanged', z3.And(same_map(m._types, t0), same_map(m._type_aliases, a0)))
    own = NOMOD(nz)
    if k == 'exc':
        E.prove('the error is a TypeLookupError', isinstance(r, TypeLookupError), r)
        E.prove('a known type never fails', z3.Not(Known(own)))
        E.prove('no transformation fits', z3.Not(found(n)))
        return
    E.prove('a triple is returned', isinstance(r, tuple) and len(r) == 3, r)
    h, tr, traits = r
    if tr is None:
        E.prove('the type itself is known', Known(own))
        E.prove('its handler is returned', E.z(h) == H(own))
        E.prove('with the traits of the given type', isinstance(traits, GhostTraits) and z3.simplify(traits._pyvc_name == nz))
        return
    i = E.loop_index
    E.prove('transformations are only tried for unknown types', z3.Not(Known(own)))
    E.prove('a registered transformation is returned', isinstance(tr, GhostTransf))
    j = tr._pyvc_i
    E.prove('it applies and its untransformed type is known', hit(j))
    E.prove('no earlier one fits', z3.Not(found(j)))
    E.prove('the handler of the untransformed type', E.z(h) == H(NOMOD(Unt(j, nz))))
    E.prove('with the traits of the untransformed type', isinstance(traits, GhostTraits) and z3.simplify(traits._pyvc_name == Unt(j, nz)))


class GhostTransf(TypeTransformation):
    _pyvc_model = True

    def __init__(self, E, i, expr, Applies, Unt, nz):
        self._pyvc_E, self._pyvc_i, self._pyvc_a, self._pyvc_u, self._pyvc_nz = E, i, Applies, Unt, nz

    def get_untransformed_name(self, name):
        E = self._pyvc_E
        if E.decide(self._pyvc_a(self._pyvc_i, E.z(name))):
            return SStr([Atom(self._pyvc_u(self._pyvc_i, E.z(name)))])
        return None


GhostTransf.__module__ = 'contracts.ghost'
GhostTransf.get_untransformed_name.__module__ = 'contracts.ghost'


@task('C06', 'register_transformation appends; add_type_alias records the alias both ways and nothing else')
def t_small(E):
    common(E)
    m = sym_matcher(E)
    a = E.seq_val('transformations')
    m._transformations = a
    m._type_aliases_rev = rt = RevTable(E)
    tr = GhostTransf(E, z3.Int('i0'), None, None, None, None)
    old = mklist(list_parts(a))
    k, r = E.outcome(TypeMatcher.register_transformation, m, tr)
    parts = list_parts(m._transformations)
    E.prove('registered last', k == 'ok' and len(parts) == 2 and parts[1][1] is tr and parts[0][1] is list_parts(old)[0][1])
    A, B = E.str('from'), E.str('to')
    a0, t0 = m._type_aliases.copy(), m._types.copy()
    na, nb = NORM(E.z(A)), NORM(E.z(B))
    k, r = E.outcome(TypeMatcher.add_type_alias, m, A, B)
    q = z3.String(E.fresh_name('q'))
    E.prove('types unchanged', same_map(m._types, t0))
    E.prove('the new name is an alias of the old one', z3.And(z3.Select(m._type_aliases.present, nb), z3.Select(m._type_aliases.value, nb) == na))
    E.prove('no other alias changes', z3.Implies(q != nb, z3.And(z3.Select(m._type_aliases.present, q) == z3.Select(a0.present, q),
                                                                z3.Select(m._type_aliases.value, q) == z3.Select(a0.value, q))))
    E.prove('only the entry of the old name is touched', bool(rt.asked) and all(z3.is_true(z3.simplify(E.z(x) == na)) for x in rt.asked))
    new = rt.now()
    E.prove('the old name knows its new alias and keeps the earlier ones', new is not None and
            z3.And(z3.Contains(new, z3.Unit(nb)), z3.Or(new == z3.Concat(z3.Unit(nb), rt.old), new == z3.Concat(rt.old, z3.Unit(nb)))))


class RevTable(object):
    """entry of one name in the reverse alias table (absent or an arbitrary list)"""
    _pyvc_model = True

    def __init__(self, E):
        self._pyvc_E = E
        self.asked = []
        self.there = E.choose(2, 'has aliases')
        self.old = z3.Const(E.fresh_name('aliases'), SeqStr) if self.there else z3.Empty(SeqStr)
        self.lst = mklist([('s', SeqSeg(self.old))]) if self.there else None

    def setdefault(self, k, d=None):
        self.asked.append(k)
        if self.lst is None:
            self.lst = d
        return self.lst

    def get(self, k, d=None):
        self.asked.append(k)
        return d if self.lst is None else self.lst

    def __contains__(self, k):
        self.asked.append(k)
        return self.lst is not None

    def __getitem__(self, k):
        self.asked.append(k)
        if self.lst is None:
            raise KeyError(k)
        return self.lst

    def __setitem__(self, k, v):
        self.asked.append(k)
        self.lst = v

    def now(self):
        return None if self.lst is None else self._pyvc_E.interp.list_expr(self.lst, SeqStr)
