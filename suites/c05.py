"""C05 type spellings: abstract types rendered in many spellings, read back by an own parser."""
import itertools
import re
from pybindgen.typehandlers import ctypeparser
from pybindgen.typehandlers.ctypeparser import normalize_type_string, TypeTraits

NAMES = ['int', 'unsigned int', 'unsigned long long', 'Foo', 'ns::Foo', '::Foo', '::a::b::C', 'std::string', 'const_iterator',
         'constant', 'char', 'volatile_t', 'nsconst::T', 'T2', '_x', 'uint8_t', 'L', 'R', 'U', 'u8']
TNAMES = ['std::vector', 'T', 'std::map', 'a::Ptr']


# abstract type: (base, quals of base frozenset, levels [(kind, quals)]);  base: name or (name, [types])
def gen(rng, depth=0, ref_ok=True, maxlv=3):
    if depth < 3 and rng.random() < (.35 if depth == 0 else .25):
        base = (rng.choice(TNAMES), [gen(rng, depth + 1) for _ in range(rng.choice([1, 1, 2]))])
    else:
        base = rng.choice(NAMES)
    q = quals(rng)
    lv = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, maxlv])):
        lv.append(('*', quals(rng)))
    if ref_ok and rng.random() < .3:
        lv.append(('&', frozenset()))
    return (base, q, tuple(lv))


def quals(rng):
    r = rng.random()
    return frozenset(['const']) if r < .35 else frozenset(['const', 'volatile']) if r < .4 else frozenset(['volatile']) if r < .43 else frozenset()


def canon(t):
    """what the statement makes of a spelling: names without leading ::"""
    base, q, lv = t
    if isinstance(base, tuple):
        b = (strip(base[0]), tuple(canon(x) for x in base[1]))
    else:
        b = strip(base)
    return (b, q, tuple(lv))


def strip(n):
    return n[2:] if n.startswith('::') else n


def ws(rng, must=False):
    return rng.choice([' ', ' ', '  ', '\t'] if must else ['', '', ' ', '  '])


def render(t, rng):
    base, q, lv = t
    qs = sorted(q)
    rng.shuffle(qs)
    before = [x for x in qs if rng.random() < .5]
    after = [x for x in qs if x not in before]
    words = before[:]
    if isinstance(base, tuple):
        args = (ws(rng) + ',' + ws(rng)).join(render(x, rng) for x in base[1])
        inner = ws(rng) + args + (ws(rng) if rng.random() < .5 else '')
        words.append(base[0] + ws(rng) + '<' + inner + '>')
    else:
        words.append(re.sub(' ', lambda m: ws(rng, True), base))
    words += after
    s = words[0]
    for w in words[1:]:
        glue = ws(rng, True)
        if s.endswith('>'):
            glue = ws(rng)
        s += glue + w
    for kind, q in lv:
        s += ws(rng) + kind
        qs = sorted(q)
        rng.shuffle(qs)
        for k, x in enumerate(qs):
            s += (ws(rng, True) if k else ws(rng)) + x
    return s


class P:
    """independent reader of type strings"""
    def __init__(self, s):
        self.t = re.findall(r'(?:::)?[A-Za-z_$][\w$]*(?:::[\w$]+)*|[<>,*&]', s)
        if re.sub(r'\s', '', s) != ''.join(self.t):
            raise ValueError('cannot read %r' % s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def type(self):
        q, words, args = set(), [], None
        while True:
            x = self.peek()
            if x in ('const', 'volatile'):
                q.add(x)
            elif x == '<':
                self.i += 1
                args = [self.type()]
                while self.peek() == ',':
                    self.i += 1
                    args.append(self.type())
                if self.peek() != '>':
                    raise ValueError('expected >')
            elif x is None or x in '>,*&':
                break
            else:
                words.append(x)
            self.i += 1
        lv = []
        while self.peek() in ('*', '&'):
            k = self.peek()
            self.i += 1
            lq = set()
            while self.peek() in ('const', 'volatile'):
                lq.add(self.peek())
                self.i += 1
            lv.append((k, frozenset(lq)))
        b = ' '.join(words)
        return ((b, tuple(args)) if args is not None else b, frozenset(q), tuple(lv))


def read(s):
    p = P(s)
    t = p.type()
    if p.peek() is not None:
        raise ValueError('rest of %r: %r' % (s, p.peek()))
    return t


def outer_const(t):
    return 'const' in (t[2][-1][1] if t[2] else t[1])


def without(t, what, outer_only):
    base, q, lv = t
    if not outer_only:
        return (base, frozenset(), tuple((k, frozenset()) for k, _ in lv))
    if lv:
        return (base, q, lv[:-1] + ((lv[-1][0], lv[-1][1] - {what}),))
    return (base, q - {what}, lv)


def check(S, t, s, seen):
    c = canon(t)
    n = normalize_type_string(s)
    seen.setdefault(c, {}).setdefault(n, s)
    if len(seen[c]) > 1:
        S.fail('spelling:' + shape(c), 'two spellings of one type normalise differently', '%r' % seen[c], s)
    if normalize_type_string(n) != n:
        S.fail('idempotent:' + shape(c), 'normalising a normalised string changes it', '%r -> %r -> %r' % (s, n, normalize_type_string(n)), s)
    try:
        back = canon(read(n))
    except (ValueError, IndexError) as e:
        back = repr(e)
    if back != c:
        S.fail('meaning:' + shape(c), 'the normalised string is another type', '%r -> %r' % (s, n), s)
    tr = TypeTraits(s)
    lv = c[2]
    ptr = bool(lv) and lv[-1][0] == '*'
    ref = bool(lv) and lv[-1][0] == '&'
    facts = dict(type_is_pointer=ptr, type_is_reference=ref, type_is_const=outer_const(c))
    if lv:
        tgt = (c[0], c[1], lv[:-1])
        facts['target_is_const'] = outer_const(tgt)
    else:
        facts['target_is_const'] = False
    for k, v in facts.items():
        if bool(getattr(tr, k)) != v:
            S.fail('fact:%s:%s' % (k, shape(c)), '%s is not the one of the C type' % k, '%r: %r, want %r' % (s, getattr(tr, k), v), s)
    if (tr.target is None) != (not lv):
        S.fail('fact:target:' + shape(c), 'target', repr(s), s)
    texts = dict(ctype=c, ctype_no_modifiers=without(c, 'const', False), ctype_no_const=without(c, 'const', True))
    nr = texts['ctype_no_const']
    if ref:
        nr = (nr[0], nr[1], nr[2][:-1])
    texts['ctype_no_const_no_ref'] = nr
    if lv and tr.target is not None:
        texts['target'] = without((c[0], c[1], lv[:-1]), 'const', False)
    for k, want in texts.items():
        txt = str(getattr(tr, k))
        try:
            got = canon(read(txt))
        except (ValueError, IndexError) as e:
            got = repr(e)
        if got != want:
            S.fail('text:%s:%s' % (k, shape(c)), '%s is not the one of the C type' % k, '%r: %r' % (s, txt), s)
        if normalize_type_string(txt) != txt:
            S.fail('text not normal:%s:%s' % (k, shape(c)), '%s is not a normalised string' % k, '%r: %r' % (s, txt), s)
    # making the type or its target const (on a fresh copy)
    if not tr.type_is_reference:
        a = TypeTraits(s)
        a.make_const()
        want = (c[0], c[1], lv[:-1] + ((lv[-1][0], lv[-1][1] | {'const'}),)) if lv else (c[0], c[1] | {'const'}, lv)
        chk(S, a.ctype, want, 'make_const', s, c)
        if not a.type_is_const:
            S.fail('make_const flag', 'make_const sets type_is_const', s, s)
    if lv:
        a = TypeTraits(s)
        a.make_target_const()
        if len(lv) > 1:
            l2 = list(lv)
            l2[-2] = (l2[-2][0], l2[-2][1] | {'const'})
            want = (c[0], c[1], tuple(l2))
        else:
            want = (c[0], c[1] | {'const'}, lv)
        chk(S, a.ctype, want, 'make_target_const', s, c)
        if not a.target_is_const:
            S.fail('make_target_const flag', 'make_target_const sets target_is_const', s, s)
    S.case(hash(s) if (lv or c[1]) else None, '%r -> %r' % (s, n) if S.n % 3000 == 11 else None)


def chk(S, ctype, want, what, s, c):
    try:
        got = canon(read(str(ctype)))
    except (ValueError, IndexError) as e:
        got = repr(e)
    S.check(got == want, '%s:%s' % (what, shape(c)), '%s changes more or less than one const' % what, '%r -> %r' % (s, str(ctype)), s)


def shape(c):
    def sh(t):
        b = 'N' if not isinstance(t[0], tuple) else 'N<' + ','.join(sh(x) for x in t[0][1]) + '>'
        return ''.join(sorted(x[0] for x in t[1])) + b + ''.join(k + ''.join(sorted(x[0] for x in q)) for k, q in t[2])
    return sh(c)


def run(S):
    rng = S.rng
    seen = {}
    # every type with up to 3 pointer levels, an optional reference, const / volatile anywhere
    qs = [frozenset(), frozenset(['const']), frozenset(['const', 'volatile'])]
    for base in ('Foo', 'unsigned int', ('std::vector', [('int', frozenset(['const']), (('*', frozenset()), ('*', frozenset())))])):
        for n in range(4):
            for bq in qs:
                for lq in itertools.product(qs[:2] if n > 1 else qs, repeat=n):
                    for ref in (False, True):
                        t = (base, bq, tuple(('*', q) for q in lq) + ((('&', frozenset()),) if ref else ()))
                        for k in range(4):
                            check(S, t, render(t, rng), seen)
    for it in range(4000 if not S.thorough else 60000):
        t = gen(rng)
        for k in range(3):
            check(S, t, render(t, rng), seen)
        if S.left() < 0:
            break
    # several types in one program: looking at one does not change another
    a = TypeTraits('const char *')
    n0 = str(a.ctype)
    a.make_const()
    S.check(str(TypeTraits('const char *').ctype) == n0, 'shared state', 'traits of one spelling are independent objects', '')
    S.check(str(a.ctype_no_const) == 'char const *' and str(a.ctype_no_modifiers) == 'char *', 'copies', 'derived types are independent copies', '%s %s' % (a.ctype_no_const, a.ctype_no_modifiers))
    # function types keep their const
    n = normalize_type_string('const std::map<std::string, void (*) (int, const std::vector<zbr>&) >&')
    S.check(n == 'std::map< std::string, void ( * ) ( int, std::vector< zbr > const & ) > const &', 'function type', 'function types', n)
