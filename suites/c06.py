"""C06 type lookup: random matchers against a model of registration, aliases and transformations."""
from pybindgen.typehandlers.base import TypeMatcher, TypeTransformation, TypeLookupError

BASES = ['int', 'Foo', 'ns::Bar', 'std::vector< int const >', 'std::map< Foo *, Bar const & >', 'unsigned long',
         'Ptr< Foo const >', 'A', 'B', 'C', 'D', 'Time', 'volatile_t', 'constant', 'T< volatile int >']
SUFF = ['', ' *', ' &', ' * *', ' * &', ' * * &']


def plain(i, j):
    return norm(BASES[i] + SUFF[j])


def spell(rng, name):
    """another spelling of the same type up to const/volatile outside template arguments"""
    base = name
    while base.endswith(' *') or base.endswith(' &'):
        base = base[:-2]
    rest = name[len(base):]
    r = rng.random()
    if r < .2:
        base = 'const ' + base
    elif r < .4:
        base = base + ' const'
    elif r < .5:
        base = 'volatile ' + base
    elif r < .55:
        base = 'const volatile ' + base
    out = ''
    for t in rest.split():
        out += rng.choice(['', ' ']) + t
        if t == '*' and rng.random() < .2:
            out += ' const'
    return base + out


class Smart(TypeTransformation):
    """Name<T> -> T*, as smart pointer support does"""

    def __init__(self, name, target):
        self.name, self.target, self.asked = name, target, []

    def get_untransformed_name(self, name):
        self.asked.append(name)
        for p in ('const ', 'volatile '):
            while name.startswith(p):
                name = name[len(p):]
        head = self.name + '<'
        if name.startswith(head):
            inner = name[len(head):name.rindex('>')].strip()
            return self.target % inner
        return None


def reach(ali, name):
    seen, todo = [name], [name]
    while todo:
        n = todo.pop(0)
        for (new, old) in ali:
            for (x, y) in ((new, old), (old, new)):
                if x == n and y not in seen:
                    seen.append(y)
                    todo.append(y)
    return seen


def run(S):
    r = S.rng
    for it in range(20000 if not S.thorough else 200000):
        m = TypeMatcher()
        types, ali, trs = {}, [], []
        log = []
        pool = [plain(r.randrange(len(BASES)), r.randrange(len(SUFF))) for _ in range(r.randrange(2, 9))]
        state = lambda: (dict(m._types), dict(m._type_aliases), {k: list(v) for k, v in m._type_aliases_rev.items()}, list(m._transformations))
        for step in range(r.randrange(3, 18)):
            before = state()
            x = r.random()
            if x < .35:
                n = r.choice(pool)
                h = object()
                log.append(('register', n))
                try:
                    m.register(n, h)
                    ok = True
                except ValueError:
                    ok = False
                S.check(ok == (n not in types), 'register', 'a new type registers, a registered one is refused', '%s accepted=%r' % (n, ok), log)
                if ok:
                    types[n] = h
                else:
                    S.check(state() == before, 'register-atomic', 'a refused registration changes nothing', n, log)
            elif x < .55:
                a, b = r.sample(pool, 2) if len(set(pool)) > 1 else (pool[0], 'Other')
                if any(new == b for (new, old) in ali):
                    continue            # one name, one declared meaning
                log.append(('alias', a, b))
                m.add_type_alias(a, b)
                ali.append((b, a))
            elif x < .65:
                t = Smart(r.choice(['Ptr', 'Ref', 'Box']), r.choice(['%s *', 'const %s *', '%s', '%s &', '%s const']))
                log.append(('transformation', t.name, t.target))
                m.register_transformation(t)
                trs.append(t)
            else:
                n = r.choice(pool)
                if r.random() < .4:
                    inner = r.choice(pool)
                    if r.random() < .6:
                        while inner[-1] in '*& ':
                            inner = inner[:-1]
                    n = '%s<%s>' % (r.choice(['Ptr', 'Ref', 'Box']), inner)
                    given, own = n, None
                else:
                    given, own = spell(r, n), n
                log.append(('lookup', given))
                for t in trs:
                    t.asked = []
                try:
                    got = m.lookup(given)
                except TypeLookupError as e:
                    got = None
                except KeyError as e:
                    S.fail('error-kind', 'a failed lookup raises TypeLookupError', repr(e), log)
                    got = None
                S.check(state() == before, 'lookup-pure', 'a lookup changes nothing', given, log)
                if own is None:
                    from pybindgen.typehandlers import ctypeparser
                    own = ctypeparser.normalize_type_string(n)      # no modifier outside template arguments here
                related = [types[q] for q in reach(ali, own) if q in types]
                want = None
                if own in types:
                    want = ([types[own]], None)
                elif related:
                    want = (related, None)
                else:
                    for t in trs:
                        u = t.get_untransformed_name(given)
                        if u is None:
                            continue
                        stripped = own_name(u)
                        rel = [types[q] for q in reach(ali, stripped) if q in types]
                        if stripped in types:
                            rel = [types[stripped]]
                        if rel:
                            want = (rel, t)
                            break
                if want is None:
                    S.check(got is None, 'unknown', 'an unknown type gives a lookup error', 'got %r' % (got,), log)
                else:
                    ok = got is not None and any(got[0] is h for h in want[0]) and got[1] is want[1]
                    S.check(ok, 'handler', 'the handler registered for the type (or an alias of it, or the first fitting transformation)',
                            '%s: got %r want %r' % (given, got, want), log)
                    if ok and want[1] is not None:
                        S.check(str(got[2].ctype).replace(' ', '') == str(norm(want[1].get_untransformed_name(given))).replace(' ', ''),
                                'traits', 'the traits of the untransformed type', str(got[2].ctype), log)
                S.case(repr(log) if len(log) > 3 else None, repr(log) if S.n % 5000 == 5 else None)
        S.check(dict(m.items()) == types, 'items', 'all registered types are listed', sorted(types), log)


def norm(u):
    from pybindgen.typehandlers import ctypeparser
    return ctypeparser.normalize_type_string(u)


def own_name(u):
    """the type without const/volatile outside template arguments (independent of the code under test)"""
    out, depth, tok = [], 0, ''
    toks = []
    for c in u:
        if c in '<':
            depth += 1
        if depth == 0 and (c in ' *&'):
            if tok:
                toks.append(tok)
            tok = ''
            if c != ' ':
                toks.append(c)
        else:
            tok += c
        if c == '>':
            depth -= 1
    if tok:
        toks.append(tok)
    toks = [t for t in toks if t not in ('const', 'volatile')]
    # join "std::vector" "<...>" pieces back
    s = ''
    for t in toks:
        s += t if (not s or t.startswith('<')) else ' ' + t
    return norm(s)
