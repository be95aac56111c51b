"""C02 names: random request histories over scopes sharing names, against a model."""
import re
from pybindgen.typehandlers.base import DeclarationsScope, CodeBlock, join_ctype_and_name
from minic.parser import Unit
from minic.ctypes_ import norm

TYPES = ['int', 'char *', 'char*', 'char **', 'void**', 'Foo', 'std::string', 'const char *', 'PyObject*', 'std::vector< int >', 'int *const *',
         'Foo *', 'unsigned long long', 'ns::Foo*', 'PyObject **', 'wchar_t *']
BASES = ['foo', 'foo2', 'foo22', 'foo3', 'foo32', 'x', 'x1', 'x2', 'py_retval', 'retval', 'a', 'a2', 'a10', 'a1', 'a22', 'a222', 'foo_2', '_', '_2']
INITS = [None, None, '0', 'NULL', '{"a", NULL}', '']
ARRS = [None, None, '[]', '[100]']


def decl_ok(text, ty, name, arr, init):
    t = text.strip()
    want = re.sub(r'\s', '', ty + name + (arr or '') + ('=' + init if init is not None else '') + ';')
    if re.sub(r'\s', '', t) != want:
        return False
    # type and name stay separate words
    m = re.search(r'(^|[^A-Za-z0-9_])%s([^A-Za-z0-9_]|$)' % re.escape(name), t)
    return bool(m)


def history(S, it, long):
    rng = S.rng
    root = DeclarationsScope()
    scopes = [root]
    taken = set()
    lines = {0: []}
    log = []
    bases = rng.sample(BASES, rng.randrange(1, 6)) if it % 3 else BASES
    for step in range(rng.randrange(2, 60 if long else 16)):
        op = rng.random()
        k = rng.randrange(len(scopes))
        sc = scopes[k]
        if op < .1 and len(scopes) < 4:
            scopes.append(DeclarationsScope(rng.choice(scopes)))
            lines[len(scopes) - 1] = []
            log.append('new scope')
            continue
        if op < .13:
            log.append((k, 'clear'))
            sc.clear()
            taken.clear()
            lines[k] = []
            continue
        name = rng.choice(bases)
        if rng.random() < .15 and taken:
            name = rng.choice(sorted(taken))
        if op < .45:
            r = sc.reserve_variable(name)
            log.append((k, 'reserve', name, '->', r))
        else:
            ty, init, arr = rng.choice(TYPES), rng.choice(INITS), rng.choice(ARRS)
            if rng.random() < .5:
                r = sc.declare_variable(ty, name, init, arr)
            else:
                r = CodeBlock('return;', sc).declare_variable(ty, name, init, arr)
            log.append((k, 'declare', ty, name, init, arr, '->', r))
            lines[k].append((ty, r, arr, init))
        fresh = name not in taken
        if r in taken:
            S.fail('clash:%s' % r, 'the name %r was given out twice' % r, '', '\n'.join(map(str, log)))
        if fresh and r != name:
            S.fail('free base', 'the free base name %r was changed to %r' % (name, r), '', '\n'.join(map(str, log)))
        if not re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', r):
            S.fail('not an identifier', repr(r), '', '\n'.join(map(str, log)))
        taken.add(r)
    for k, sc in enumerate(scopes):
        got = sc.get_code_sink().flush().rstrip('\n')
        got = got.split('\n') if got else []
        want = lines[k]
        if len(got) != len(want) or not all(decl_ok(g, *w) for g, w in zip(got, want)):
            S.fail('declaration text', 'declarations are not those requested, once each and in order',
                   'got %r\nwant %r' % (got, want), '\n'.join(map(str, log)))
    S.case(tuple(map(str, log)) if len(log) > 2 else None, log if it < 2 else None)


def run(S):
    for it in range(6000 if not S.thorough else 80000):
        history(S, it, it % 10 == 0)
    # long runs on one base
    sc = DeclarationsScope()
    seen = set()
    for i in range(400):
        for n in ('v', 'v1', 'v11'):
            r = sc.declare_variable('int', n)
            S.check(r not in seen, 'clash:long', '%r twice' % r, '', 'declare v, v1, v11 repeatedly')
            seen.add(r)
    for ty in TYPES + ['C*', 'void***', 'void ***', 'A **']:
        t = join_ctype_and_name(ty, 'nm')
        S.check(re.sub(r'\s', '', t) == re.sub(r'\s', '', ty) + 'nm' and re.search(r'[^A-Za-z0-9_]nm$', t),
                'join:' + ty, 'join_ctype_and_name(%r)' % ty, t)
    try:
        CodeBlock('return;', DeclarationsScope()).declare_variable('int', 'a::b')
        S.fail('colon', 'a name with a colon is declared', '')
    except ValueError:
        pass
