"""C08 failing wrappers: a module in which some wrappers cannot be generated, with an error handler that
continues, emits the text of the module in which they were never declared; a handler that declines, no
handler, and errors of other kinds let the original error through."""
import difflib
import io
import re
import warnings
from pybindgen import settings
from .common import fresh
from pybindgen.typehandlers.base import (Parameter, ReturnValue, CodeGenerationError, NotSupportedError,
                                         TypeConfigurationError, TypeLookupError)

RULE = 'modules with one or more failing wrappers x place x kind of failure x error; distinct (items, failing items, failure)'
HANDLED = [CodeGenerationError, NotSupportedError, TypeConfigurationError]
LOOKUP = [TypeLookupError, NotSupportedError, TypeConfigurationError]


class Other(Exception):
    pass


OTHERS = [Other, ValueError, KeyError, AttributeError, TypeError, AssertionError, RuntimeError, StopIteration, TypeLookupError]


class Fault(object):
    """what the failing handlers do; set per module"""
    error = None
    late = False
    raised = []

    @classmethod
    def go(cls, wrapper=None):
        e = cls.error('zzbad refused')
        cls.raised.append(e)
        raise e


def dirty(w):
    """leave as much behind as a handler can before it fails"""
    if not Fault.late:
        return
    v = w.declarations.declare_variable('int', 'zzbad_var')
    w.before_call.write_code('zzbad_before(%s);' % v)
    w.after_call.write_code('zzbad_after(%s);' % v)
    w.before_call.add_cleanup_code('zzbad_cleanup(%s);' % v)
    if hasattr(w, 'call_params'):
        w.call_params.append(v)
    w.parse_params.add_parameter('i', ['&' + v], 'zzbad_name')
    w.build_params.add_parameter('i', [v])


class BadParam(Parameter):
    DIRECTIONS = [Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT]
    CTYPES = ['zzbad_t']

    def convert_c_to_python(self, w):
        dirty(w)
        Fault.go(w)

    def convert_python_to_c(self, w):
        dirty(w)
        Fault.go(w)


class BadReturn(ReturnValue):
    CTYPES = ['zzbad_r']

    def get_c_error_return(self):
        return 'return 0;'

    def convert_c_to_python(self, w):
        dirty(w)
        Fault.go(w)

    def convert_python_to_c(self, w):
        dirty(w)
        Fault.go(w)


class BadDeclared(Parameter):
    """cannot even be declared"""
    DIRECTIONS = [Parameter.DIRECTION_IN]
    CTYPES = ['zzbad_d']

    def __init__(self, ctype, name, **kw):
        Fault.go()


class Handler(settings.ErrorHandler):
    def __init__(self, answer):
        super(Handler, self).__init__()
        self.answer, self.calls = answer, []

    def handle_error(self, wrapper, exception, traceback_):
        self.calls.append(exception)
        return self.answer


GOODP = ["param('int', 'a')", "param('double', 'b', default_value='1.5')", "param('std::string', 's')", "param('A', 'o')", "param('bool', 'q')"]
GOODR = ["None", "retval('int')", "retval('std::string')", "retval('A')"]


def signature(S, bad, reverse=False, ctor=False, declared=False):
    """return and parameters of one wrapper, as text"""
    r = 'None' if ctor else S.rng.choice(GOODR)
    ps = S.rng.sample([p for p in GOODP if not (reverse and "'A'" in p)], S.rng.choice([0, 1, 1, 2]))
    ps.sort(key=lambda p: 'default' in p)
    if reverse and "'A'" in r:
        r = "retval('int')"
    if bad == 'lookup':
        if ctor or S.rng.random() < .6:
            ps.insert(0, "param('zzbad_unknown', 'zzbad')")
        else:
            r = "retval('zzbad_unknown')"
    elif bad == 'declared':
        ps.insert(0, "param('zzbad_d', 'zzbad')")
    elif bad == 'return' and not ctor:
        r = "BadReturn('zzbad_r')"
    elif bad:
        d = ', direction=%d' % S.rng.choice([1, 1, 2, 3]) if not ctor else ''
        ps.insert(S.rng.randrange(len([p for p in ps if 'default' not in p]) + 1), "BadParam('zzbad_t', 'zzbad'%s)" % d)
    return r, '[%s]' % ', '.join(ps)


def items(S):
    """(line, failing?) per declaration; the failing ones can be left out"""
    out = []
    kinds = ['param', 'param', 'return', 'lookup', 'declared'] if not Fault.other else ['param', 'return']
    if S.only_generation:
        kinds = ['param', 'param', 'return']

    def add(line, bad=False):
        out.append((line, bool(bad)))

    add("a = mod.add_class('A')")
    add("a.add_constructor([])")
    add("a.add_copy_constructor()")
    add("ns = mod.add_cpp_namespace('deep')")
    owners = [("mod", 0), ("ns", 0)]
    place = []
    for nm, opts in (('K', ''), ('V', ', allow_subclassing=True'), ('W', ", parent=v, allow_subclassing=True"), ('Z', ", parent=k")):
        if S.rng.random() < .7 or nm in 'KV':
            v = nm.lower()
            add("%s = %s.add_class(%r%s)" % (v, S.rng.choice(['mod', 'ns']) if not opts else 'mod', nm, opts))
            place.append((v, 'subcl' in opts))
            if 'subcl' in opts:
                add("%s.add_method('good', None, [], is_virtual=True)" % v)
    seq = []
    uid = [0]

    def one(bad_ok=True):
        uid[0] += 1
        u = uid[0]
        bad = S.rng.choice(kinds) if bad_ok and S.rng.random() < .45 else None
        what = S.rng.choice(['function', 'function', 'method', 'method', 'ctor', 'attr', 'virtual', 'special', 'asmethod'])
        if what == 'function':
            r, p = signature(S, bad)
            add("%s.add_function(%r, %s, %s)" % (S.rng.choice(['mod', 'ns']), S.rng.choice(['f', 'g', 'h%d' % u]), r, p), bad)
        elif what == 'method':
            v, sub = S.rng.choice(place)
            r, p = signature(S, bad)
            o = S.rng.choice(['', ', is_const=True', ", custom_name='cn%d'" % u])
            name = S.rng.choice(['m', 'n', 'o%d' % u])
            if S.rng.random() < .2:
                o, name = o + ', is_static=True', 's%d' % S.rng.choice([1, 2])
            if sub and S.rng.random() < .25:
                o, name = ", visibility='protected'", S.rng.choice(['pm', 'pn%d' % u])
            add("%s.add_method(%r, %s, %s%s)" % (v, name, r, p, o), bad)
        elif what == 'virtual':
            subs = [v for v, s in place if s]
            r, p = signature(S, bad, reverse=True)
            o = S.rng.choice(['', ', is_const=True', ", visibility='protected'", ", visibility='private'"])
            name = {'': 'vi', ', is_const=True': 'vc', ", visibility='protected'": 'vp', ", visibility='private'": 'vq'}[o]
            add("%s.add_method(%r, %s, %s, is_virtual=True%s)" % (S.rng.choice(subs), S.rng.choice([name, '%s%d' % (name, u)]), r, p, o), bad)
        elif what == 'special':
            v, sub = S.rng.choice(place)
            nm, r, p = S.rng.choice([('__call__', "retval('int')", 1), ('__len__', "retval('int')", 0), ('__getitem__', "retval('int')", 1), ('__contains__', "retval('bool')", 1),
                                     ('__setitem__', 'None', 2), ('__add__', "retval('int')", 1)])
            ps = ["param('int', 'x%d')" % i for i in range(p)]
            if bad in ('param', 'lookup', 'declared') and ps:
                ps[S.rng.randrange(len(ps))] = dict(param="BadParam('zzbad_t', 'zzbad')", lookup="param('zzbad_unknown', 'zzbad')", declared="param('zzbad_d', 'zzbad')")[bad]
            elif bad:
                r = "BadReturn('zzbad_r')" if bad != 'lookup' else "retval('zzbad_unknown')"
                if bad == 'declared':
                    bad = None
                    r = "retval('int')"
            add("%s.add_method('op%d', %s, [%s], custom_name=%r)" % (v, S.rng.choice([1, 2]), r, ', '.join(ps), nm), bad)
        elif what == 'asmethod':
            v, sub = S.rng.choice(place)
            r, p = signature(S, bad)
            add("%s.add_function_as_method('fm%d', %s, %s, custom_name=%r)" % (v, u, r, p.replace('[', "[param('%s &', 'self_')%s" % (v.upper(), ', ' if p != '[]' else ''), 1), S.rng.choice(['am', 'an%d' % u])), bad)
        elif what == 'ctor':
            v, sub = S.rng.choice(place)
            r, p = signature(S, bad, ctor=True)
            add("%s.add_constructor(%s%s)" % (v, p, ", visibility='protected'" if sub and S.rng.random() < .2 else ''), bad)
        else:
            v, sub = S.rng.choice(place)
            if bad in ('declared', 'param'):
                bad = 'return'
            r = "BadReturn('zzbad_r')" if bad == 'return' else "retval('zzbad_unknown')" if bad else S.rng.choice(GOODR[1:])
            o = S.rng.choice(['', ', is_const=True', ", getter='G', setter='H'"])
            k = S.rng.choice(['instance', 'static'])
            if k == 'static':
                o = S.rng.choice(['', ', is_const=True'])
            add("%s.add_%s_attribute('at%d', %s%s)" % (v, k, u, r, o), bad)
    for i in range(S.rng.choice([2, 4, 8, 14])):
        one()
    while not any(b for l, b in out):
        one()
    if S.rng.random() < .3 and ('k', False) in place:
        add("m_i = mod.add_class('MI', parent=[k, a])")
        add("m_i.add_constructor([])")
    return out


def tidy(text):
    """the top-level pieces of the text: without blank lines, comments and unused declarations of types, in an order
    of their own (declaring something earlier or later does not change what is emitted for it)"""
    lines = [l for l in text.split('\n') if l.strip() and not re.match(r'\s*/\*.*\*/\s*$', l)]
    chunks, cur = [], []
    for l in lines:
        cur.append(l)
        if l.startswith('#') and len(cur) == 1 or l.startswith('}') or (len(cur) == 1 and l.rstrip().endswith(';') and not l.startswith(' ')):
            chunks.append(cur)
            cur = []
    if cur:
        chunks.append(cur)
    out = []
    for c in chunks:
        if 'static PyMethodDef' in c[0]:
            c = c[:1] + sorted(c[1:-1]) + c[-1:]
        m = re.match(r'extern PyTypeObject (\w+);$', c[0])
        if m and len(c) == 1 and not re.search(r'(?<!extern )PyTypeObject %s\b' % m.group(1), text):
            continue
        out.append('\n'.join(c))
    return '\n'.join(sorted(out))


def mirrored(text):
    "without the constructors of helper classes, which mirror those of the C++ class"
    return re.sub(r'^ +Py\w+__PythonHelper\([^\n]*\)\n +: [^\n]*m_pyself\(NULL\)\n +\{\}\n', '', text, flags=re.M)


PRE = "from pybindgen import *\n"


def make(lines, handler, deprecated=False):
    """declares and generates; -> (text, error)"""
    ns = dict(BadParam=BadParam, BadReturn=BadReturn)
    out = io.StringIO()
    settings.error_handler = handler
    old = settings.deprecated_virtuals
    settings.deprecated_virtuals = deprecated
    try:
        with warnings.catch_warnings(), fresh():
            warnings.simplefilter('ignore')
            exec(PRE + "mod = Module('m')", ns)
            for l in lines:
                exec(l, ns)
            ns['mod'].generate(out)
        return tidy(mirrored('\n'.join(l for l in out.getvalue().split('\n') if l.strip()))), None
    except Exception as e:
        return None, e
    finally:
        settings.error_handler = None
        settings.deprecated_virtuals = old


def kind_of(line):
    m = re.search(r'add_(\w+)\(', line)
    k = m.group(1)
    if 'is_virtual' in line:
        k = 'virtual'
    if 'protected' in line:
        k += ':protected'
    m = re.search(r"custom_name='(__\w+__)'", line)
    if m:
        k += ':' + m.group(1)
    k += ':lookup' if 'zzbad_unknown' in line or 'zzbad_d' in line else ''
    return k


def blame(lines, dep):
    """the failing declarations one of which alone still shows a difference"""
    bad = [l for l, b in lines if b]
    ref = make([l for l, b in lines if not b], Handler(True), dep)
    for one in bad:
        if make([l for l, b in lines if not b or l is one], Handler(True), dep)[0] != ref[0]:
            return one
    return None


def differential(S):
    for i in range(2600 if S.thorough else 420):
        Fault.other = False
        S.only_generation = S.rng.random() < .5
        Fault.error = S.rng.choice(HANDLED)
        Fault.late = S.rng.random() < .7
        dep = S.rng.random() < .25
        lines = items(S)
        if any('BadDeclared' in l or 'zzbad_d' in l for l, b in lines):
            Fault.error = S.rng.choice(LOOKUP[1:])
        ref, e0 = make([l for l, b in lines if not b], Handler(True), dep)
        h = Handler(True)
        del Fault.raised[:]
        text, e1 = make([l for l, b in lines], h, dep)
        script = '\n'.join(l for l, b in lines)
        S.case(script + Fault.error.__name__ + str(Fault.late), script)
        detail = '# error %s late %s deprecated_virtuals %s' % (Fault.error.__name__, Fault.late, dep)
        if e0 is not None:
            S.count('reference refused')
            S.check(isinstance(e0, tuple(HANDLED)), 'reference:%s' % type(e0).__name__, 'a module without failing wrappers: %r' % e0, repro='\n'.join(l for l, b in lines if not b))
            continue
        one = blame(lines, dep) if e1 is not None or text != ref else None
        kk = kind_of(one) if one else 'several'
        if e1 is not None:
            import traceback
            S.fail('raised:%s:%s' % (kk, type(e1).__name__), 'the handler continues but %r comes out' % e1, ''.join(traceback.format_exception(type(e1), e1, e1.__traceback__))[-3000:], repro=script + '\n' + detail)
            continue
        S.check('zzbad' not in text, 'left:' + kk, 'a part of a failing wrapper is emitted: %r' % [l.strip() for l in text.split('\n') if 'zzbad' in l][:4], repro=lambda: script + '\n' + detail)
        S.check(text == ref, 'differs:' + kk, 'the module is not the one without the failing wrappers%s' % (' (%s)' % one if one else ''),
                detail=lambda: '\n'.join(list(difflib.unified_diff(ref.split('\n'), text.split('\n'), 'without', 'with', n=1, lineterm=''))[:80]), repro=lambda: script + '\n' + detail)
        # the handler sees only errors it may skip, the original ones
        ok = [x for x in h.calls if type(x) in HANDLED + [TypeLookupError]]
        S.check(len(ok) == len(h.calls), 'offered', 'the handler is asked about %r' % [x for x in h.calls if x not in ok], repro=lambda: script + '\n' + detail)
        S.check(all(any(x is y for y in Fault.raised) for x in h.calls if 'zzbad refused' in str(x)), 'original', 'the handler is asked about another error than the one raised', repro=lambda: script)
        S.check(h.calls, 'asked', 'the handler is not asked about the failing wrapper', repro=lambda: script)


def original(S):
    """declined, no handler, other kinds of errors"""
    for i in range(1200 if S.thorough else 260):
        Fault.other = S.rng.random() < .5
        S.only_generation = True
        Fault.error = S.rng.choice(OTHERS if Fault.other else HANDLED)
        Fault.late = S.rng.random() < .5
        lines = items(S)
        script = '\n'.join(l for l, b in lines)
        if make([l for l, b in lines if not b], Handler(True))[1] is not None:
            continue
        answers = [True, False, None] if Fault.other else [False, None]
        for a in answers:
            h = Handler(a) if a is not None else None
            del Fault.raised[:]
            text, e = make([l for l, b in lines], h)
            S.case((script, Fault.error.__name__, a), None)
            who = 'without handler' if h is None else 'with a handler that answers %r' % a
            key = '%s:%s' % ('other' if Fault.other else 'handled', 'none' if h is None else a)
            bads = [kind_of(l) for l, b in lines if b]
            if not Fault.raised:
                S.count('not reached')
                continue
            S.check(e is not None and any(e is x for x in Fault.raised), 'propagates:' + key, '%s, %s raised by %s comes out as %r' % (who, Fault.error.__name__, bads, e), repro=script)
            if Fault.other and h is not None:
                S.check(not any(any(c is x for x in Fault.raised) for c in h.calls), 'not-offered:' + key, 'the handler is asked about a %s' % Fault.error.__name__, repro=script)
            elif h is not None:
                S.check(len(h.calls) >= 1 and any(h.calls[-1] is x for x in Fault.raised), 'declined:' + key, 'the handler declined but was asked %r' % h.calls, repro=script)


def run(S):
    Fault.other = False
    differential(S)
    original(S)
