"""Symbolic values of the pyvc evaluator.

SStr  - string: a sequence of literal pieces and atoms (z3 String terms)
SInt  - integer: a z3 Int term
SBool - truth value: a z3 Bool term
SVal  - opaque object: a z3 term of the uninterpreted sort Val
SList - list; concrete (elements, any of them symbolic) or with unbounded parts
PMap  - mapping with symbolic keys (z3 arrays)
RecSeg / SeqSeg / RangeSeg - unbounded runs of elements inside an SList
"""
import z3

Val = z3.DeclareSort('Val')
StrSort = z3.StringSort()
SeqStr = z3.SeqSort(StrSort)
SeqVal = z3.SeqSort(Val)

JOIN = z3.Function('join', StrSort, SeqStr, StrSort)       # sep, parts -> text
SPLITNL = z3.Function('split_nl', StrSort, SeqStr)
SPACES = z3.Function('spaces', z3.IntSort(), StrSort)
RSTRIP = z3.Function('rstrip', StrSort, StrSort)
ITOA = z3.Function('itoa', z3.IntSort(), StrSort)
REV_S = z3.Function('rev_s', SeqStr, SeqStr)
REV_V = z3.Function('rev_v', SeqVal, SeqVal)
REPR_V = z3.Function('repr_v', Val, StrSort)
STR_V = z3.Function('str_v', Val, StrSort)
REPR_S = z3.Function('repr_s', StrSort, StrSort)


class EngineSignal(BaseException):
    """Control signals of the engine: never caught by evaluated code."""


class Unsupported(EngineSignal):
    """A construct the evaluator cannot decide; the task degrades, it never alarms."""


class PathEnd(EngineSignal):
    pass


class Restart(EngineSignal):
    """loop information changed; the task is re-run from the start"""


def _native_use(what):
    def f(self, *a, **k):
        raise Unsupported('native use of symbolic value: ' + what)
    return f


class Sym(object):
    __slots__ = ()
    __eq__ = _native_use('==')
    __ne__ = _native_use('!=')
    __lt__ = _native_use('<')
    __le__ = _native_use('<=')
    __gt__ = _native_use('>')
    __ge__ = _native_use('>=')
    __hash__ = _native_use('hash')
    __bool__ = _native_use('bool')
    __str__ = _native_use('str')
    __len__ = _native_use('len')
    __iter__ = _native_use('iter')
    __format__ = _native_use('format')
    __add__ = _native_use('+')
    __radd__ = _native_use('+')
    __contains__ = _native_use('in')


class Poison(Sym):
    """value with unknown content: any use is unsupported"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<poison %s>' % self.why


IDCHARS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def cs_has(cs, c):
    return (c in cs[1]) == cs[0]


def cs_sub(cs, chars):
    return (True, cs[1] - chars) if cs[0] else (False, cs[1] | chars)


def cs_add(cs, chars):
    return (True, cs[1] | chars) if cs[0] else (False, cs[1] - chars)


def cs_within(cs, chars):
    return cs[0] and cs[1] <= chars


class Atom(object):
    """one symbolic piece of a string.  kind: 'any' | 'line' (no newline) |
    'ident' (C identifier).  cs: the characters it may contain, (True, set) = only these,
    (False, set) = any but these"""
    __slots__ = ('expr', 'kind', 'key', 'cs')

    def __init__(self, expr, kind='any', cs=None):
        self.expr = expr
        self.kind = kind
        self.key = expr.sexpr()
        if cs is None:
            cs = (True, IDCHARS) if kind == 'ident' else (False, frozenset('\n')) if kind == 'line' else (False, frozenset())
        self.cs = cs

    def __repr__(self):
        return '{%s}' % self.key


class SStr(Sym):
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __repr__(self):
        return 'SStr(%s)' % ''.join(p if isinstance(p, str) else repr(p) for p in self.pieces)

    def expr(self):
        parts = [z3.StringVal(p) if isinstance(p, str) else p.expr for p in self.pieces]
        if not parts:
            return z3.StringVal('')
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*parts)

    def key(self):
        return tuple(p if isinstance(p, str) else ('\0', p.key) for p in self.pieces)


def mkstr(pieces):
    s = SStr(pieces)
    if not s.pieces:
        return ''
    if len(s.pieces) == 1 and isinstance(s.pieces[0], str):
        return s.pieces[0]
    return s


class SInt(Sym):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    def __repr__(self):
        return 'SInt(%s)' % self.expr


class SBool(Sym):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    def __repr__(self):
        return 'SBool(%s)' % self.expr


class SVal(Sym):
    """opaque object; identity and equality are those of the term"""
    __slots__ = ('expr', 'attrs', 'isa', 'tag')

    def __init__(self, expr, isa=(), tag=None):
        self.expr = expr
        self.attrs = {}
        self.isa = isa
        self.tag = tag

    def __repr__(self):
        return 'SVal(%s)' % self.expr


class _PoisonItem(object):
    def _die(self, *a, **k):
        raise Unsupported('native access to a symbolic list')
    __str__ = __repr__ = __eq__ = __hash__ = __iter__ = __len__ = __lt__ = __bool__ = _die


POISON_ITEM = _PoisonItem()


class Seg(object):
    """unbounded run of elements: length (z3 Int) and element(i)"""
    reversed = False
    base = None

    def length(self):
        raise NotImplementedError

    def element(self, eng, i):
        raise NotImplementedError

    def seqexpr(self):
        """z3 Seq term or None"""
        return None

    def same(self, other):
        return self is other


class SeqSeg(Seg):
    """elements of a z3 sequence term (of strings or opaque values)"""

    def __init__(self, expr):
        self.expr = expr

    def length(self):
        return z3.Length(self.expr)

    def element(self, eng, i):
        e = self.expr[i]
        if self.expr.sort() == SeqStr:
            return SStr([Atom(e)])
        return SVal(e)

    def seqexpr(self):
        return self.expr

    def same(self, other):
        return isinstance(other, SeqSeg) and self.expr.eq(other.expr)

    def __repr__(self):
        return 'SeqSeg(%s)' % self.expr


class RecSeg(Seg):
    """elements given by a function of the index (records of any shape)"""

    def __init__(self, name, n, make):
        self.name = name
        self.n = n
        self.make = make

    def length(self):
        return self.n

    def element(self, eng, i):
        return self.make(eng, i)

    def __repr__(self):
        return 'RecSeg(%s)' % self.name


class RangeSeg(Seg):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        lo, hi = self.lo, self.hi
        d = (hi - lo) if self.step == 1 else (lo - hi)
        return z3.If(d > 0, d, z3.IntVal(0))

    def element(self, eng, i):
        return SInt(self.lo + i * self.step)


class SList(list):
    """list created by evaluated code.  parts is None: plain native content.
    Otherwise parts = list of ('e', value) / ('s', Seg)"""
    parts = None
    serial = 0      # of its creation

    def __init__(self, *a):
        list.__init__(self, *a)
        SList.made += 1
        self.serial = SList.made

    def set_parts(self, parts):
        if all(k == 'e' for k, _ in parts):
            self.parts = None
            list.__setitem__(self, slice(None), [v for _, v in parts])
        else:
            self.parts = list(parts)
            list.__setitem__(self, slice(None), [POISON_ITEM])

    def get_parts(self):
        if self.parts is not None:
            return list(self.parts)
        return [('e', v) for v in list.__iter__(self)]

    def is_sym(self):
        return self.parts is not None

    def __hash__(self):
        return id(self)


def list_parts(l):
    if isinstance(l, SList):
        return l.get_parts()
    return [('e', v) for v in l]


def mklist(parts):
    l = SList()
    l.set_parts(parts)
    return l


SList.made = 0


class PMap(object):
    """mapping with symbolic string or int keys; values strings, ints or opaque.
    present: Array(K,Bool); value: Array(K,V)"""

    def __init__(self, present, value, ksort, vsort, wrap=None, unwrap=None):
        self.present, self.value = present, value
        self.ksort, self.vsort = ksort, vsort
        self.wrap, self.unwrap = wrap, unwrap

    def copy(self):
        return PMap(self.present, self.value, self.ksort, self.vsort, self.wrap, self.unwrap)

    __eq__ = _native_use('map ==')
    __hash__ = object.__hash__
    __len__ = _native_use('map len')
    __iter__ = _native_use('map iter')
    __contains__ = _native_use('map in')
    __bool__ = _native_use('map bool')


def is_sym(v):
    return isinstance(v, (Sym, PMap)) or (isinstance(v, SList) and v.parts is not None)


def deep_sym(v, depth=3):
    if is_sym(v):
        return True
    if depth <= 0:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        try:
            return any(deep_sym(x, depth - 1) for x in v)
        except EngineSignal:
            return True
    if isinstance(v, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(x, depth - 1) for k, x in v.items())
    return False
