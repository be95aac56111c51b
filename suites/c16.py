"""C16 names: mangling over all short strings of an alphabet and random long ones; C symbols of whole
modules with unusual C++ names; histories of custom names."""
import itertools
import re
import io
from pybindgen import utils, settings, function, cppmethod, cppclass, cppexception
from pybindgen import Module, param, retval, FileCodeSink
from .common import fresh

RULE = 'names with at least one character that no identifier has; distinct names and histories'
ID = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
CH = re.compile(r'[A-Za-z0-9_]*\Z')
ALPHA = ['a', 'B', '_', '9', '<', '>', ',', ':', '&', '*', '(', ')', ' ']
MORE = ALPHA + ['-', '[', ']', '=', '.', '~', '!', '+', '%', "'", '\t', '\xe9', '::', 'unsigned', 'const ', '__lt__', 'std::', 'operator']


def mangling(S):
    n = 5 if S.thorough else 4
    for k in range(0, n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            one(S, ''.join(t))
    for i in range(40000 if S.thorough else 8000):
        one(S, ''.join(S.rng.choice(MORE) for j in range(S.rng.choice([3, 5, 8, 20, 60]))))
    for i in range(20000 if S.thorough else 4000):
        b = ''.join(S.rng.choice(MORE) for j in range(S.rng.choice([1, 2, 6])))
        args = [''.join(S.rng.choice(MORE) for j in range(S.rng.choice([0, 1, 3, 9]))) for x in range(S.rng.choice([0, 1, 1, 2, 4]))]
        S.case((b, tuple(args)))
        r = utils.get_mangled_name(b, args)
        S.check(CH.match(r), 'characters:template', 'get_mangled_name(%r, %r) gives %r' % (b, args, r), repro='utils.get_mangled_name(%r, %r)' % (b, args))
        S.check(r == utils.get_mangled_name(b, tuple(args)), 'same:template', 'get_mangled_name(%r, %r) gives different names' % (b, args))
        if not args:
            S.check(r == utils.mangle_name(b), 'plain:template', 'get_mangled_name(%r, []) is %r' % (b, r))
        if ID.match(b) and not args:
            S.check(r == b, 'unchanged:template', 'get_mangled_name(%r, []) is %r' % (b, r))


SEEN = {}


def one(S, s):
    r = utils.mangle_name(s)
    if CH.match(s):
        S.case()
        S.check(r == s, 'unchanged', 'mangle_name(%r) gives %r' % (s, r), repro='utils.mangle_name(%r)' % s)
    else:
        S.case(s, s)
    S.check(CH.match(r), 'characters', 'mangle_name(%r) gives %r' % (s, r), repro='utils.mangle_name(%r)' % s)
    if len(SEEN) < 3000:
        SEEN[s] = r


def again(S):
    for s, r in SEEN.items():
        S.check(utils.mangle_name(s) == r, 'same', 'mangle_name(%r) gave %r before, now %r' % (s, r, utils.mangle_name(s)))


# ---------------------------------------------------------------- whole modules

CXX = ['Foo<int>', 'Foo< int, char >', 'Foo<Bar<int *>, 3>', 'Array< int [3] >', 'F<int (*)(char)>', 'Foo<-1>', 'Foo<a::B>', 'Foo<unsigned int&>',
       'plain', 'lower<x>', 'P<const char*>', 'A1', "C<'c'>", 'D<A == 2>', 'T<sizeof(int)>', 'V<~0>', 'N<1 + 2>', 'M<int...>', 'x_y<q>']
FNS = ['f', 'f<int>', 'operator()', 'operator<<', 'operator bool', 'operator ==', 'get<std::string>', 'f<int (*)(int)>', 'g', 'operator->', 'operator[]', 'h<-1>', 'f<a::b>', 'operator+=']


def modules(S):
    for i in range(60 if S.thorough else 16):
        lines = ['mod = Module(%r)' % S.rng.choice(['m', 'pkg.m', '_m'])]
        ns = ['mod']
        if S.rng.random() < .6:
            lines.append("ns = mod.add_cpp_namespace('deep')")
            ns.append('ns')
        k = 0
        for c in S.rng.sample(CXX, 4):
            k += 1
            own = S.rng.choice(ns)
            opts = ''
            if S.rng.random() < .4:
                opts += ', allow_subclassing=True'
            if S.rng.random() < .3:
                opts += ', template_parameters=%r' % S.rng.sample(['int', 'a::B<char *>', 'const X &', '-1', 'int (*)(int)'], S.rng.choice([1, 2]))
            lines.append('c%d = %s.add_class(%r%s)' % (k, own, c, opts))
            lines.append('c%d.add_constructor([])' % k)
            lines.append("c%d.add_instance_attribute('a', retval('int'))" % k)
            lines.append("c%d.add_static_attribute('b', retval('int'))" % k)
            for j, f in enumerate(S.rng.sample(FNS, 3)):
                v = ', is_virtual=True' if 'allow_sub' in opts and '<' not in f.replace('<<', '') and S.rng.random() < .6 else ''
                t = ', template_parameters=%r' % ['int', 'a::B *'] if not v and S.rng.random() < .3 else ''
                p = ", visibility='protected'" if v and S.rng.random() < .3 else ''
                lines.append("c%d.add_method(%r, retval('int'), [param('int', 'x')]%s%s%s)" % (k, f, v, t, p))
            if S.rng.random() < .5:
                lines.append("n%d = c%d.add_class(%r)" % (k, k, 'In' + S.rng.choice(CXX)))
                lines.append("n%d.add_constructor([])" % k)
            lines.append("c%d.add_copy_constructor()" % k)
            if S.rng.random() < .5:
                lines.append("%s.add_function('fc%d', retval(c%d.full_name), [param(c%d.full_name, 'x')])" % (own, k, k, k))
            if S.rng.random() < .4:
                lines.append("mod.add_container('std::vector< %%s >' %% c%d.full_name, c%d.full_name, 'vector')" % (k, k))
            if S.rng.random() < .3:
                lines.append("c%d.add_binary_numeric_operator('+')" % k)
                lines.append("c%d.add_binary_comparison_operator('==')" % k)
        for f in S.rng.sample(FNS, 4):
            own = S.rng.choice(ns)
            t = ', template_parameters=%r' % S.rng.sample(['int', 'a::B<char *>', 'const X &', 'int [3]', '-1'], S.rng.choice([1, 2])) if S.rng.random() < .5 else ''
            lines.append("%s.add_function(%r, retval('int'), [param('int', 'x')]%s)" % (own, f, t))
            if S.rng.random() < .4:
                lines.append("%s.add_function(%r, retval('int'), [param('double', 'x')]%s)" % (own, f, t))
        lines.append("ex = %s.add_exception(%r)" % (S.rng.choice(ns), S.rng.choice(['Err', 'Err<int>', 'Err<-1>', 'E< a::b * >'])))
        for cn, v, kd in (('std::map< int, std::string >', ('int', 'std::string'), 'map'), ('std::list< unsigned short >', 'unsigned short', 'list')):
            if S.rng.random() < .5:
                lines.append('mod.add_container(%r, %r, %r)' % (cn, v, kd))
        whole(S, lines)


SYMBOL = re.compile(r'\b(_wrap_|Py[A-Z]\w*__|_PyBindGen)')


def generate(lines):
    import warnings
    ns = {}
    out = io.StringIO()
    settings.error_handler = None
    with warnings.catch_warnings(), fresh():
        warnings.simplefilter('ignore')
        exec('from pybindgen import *\nfrom pybindgen import settings\nsettings.deprecated_virtuals = False\n' + '\n'.join(lines), ns)
        ns['mod'].generate(FileCodeSink(out))
    return ns, out.getvalue()


def whole(S, lines):
    script = '\n'.join(lines)
    ns, text = generate(lines)
    names = set()
    mod = ns['mod']

    def walk(m):
        for c in m.classes:
            names.update([c.pystruct, c.pytypestruct, c.metaclass_name, c.mangled_name, c.mangled_full_name, c.instance_attributes.cname, c.static_attributes.cname])
            if c.helper_class is not None:
                names.add(c.helper_class.name)
                for o in c.helper_class.virtual_parent_callers.values():
                    names.update([str(o.wrapper_actual_name).split('::')[-1]] + [str(w.wrapper_actual_name).split('::')[-1] for w in o.wrappers])
            for o in c.methods.values():
                names.update([str(o.wrapper_actual_name)] + [str(w.wrapper_actual_name) for w in getattr(o, 'wrappers', [])])
        for o in m.functions.values():
            names.update([str(o.wrapper_actual_name)] + [str(w.wrapper_actual_name) for w in o.wrappers])
        for e in m.exceptions:
            names.update([e.pytypestruct, e.mangled_name])
        for c in m.containers:
            names.update([c.pystruct, c.pytypestruct, c.iter_pystruct, c.iter_pytypestruct, c.python_to_c_converter])
        for s in m.submodules:
            walk(s)
    walk(mod)
    names.discard('None')
    for n in sorted(names):
        S.case(n if '<' in script else None, n)
        S.check(ID.match(n.split('::')[-1]) and all(ID.match(p) for p in n.split('::')), 'symbol:' + re.sub(r'[A-Za-z0-9_]+', 'x', n),
                'the C symbol %r is no identifier' % n, repro=script)
    # the tables of the emitted text name only identifiers, each of them a function of the text
    for m in re.finditer(r'^ *\{\(char \*\) "((?:[^"\\]|\\.)*)",\s*\(PyCFunction\)\s*([^\n]*?), ?METH', text, re.M):
        S.count('table rows')
        f = m.group(2).strip()
        last = f.split('::')
        S.check(all(ID.match(x) for x in last), 'row:' + re.sub(r'[A-Za-z0-9_]+', 'x', f), 'the table names %r' % f, repro=script)
    for m in re.finditer(r'^(?:static\s+)?(?:PyObject\s*\*|int|Py[A-Za-z_]*|extern|typedef struct|struct|class)\s*\*?\s*\n?((?:_wrap_|Py|_PyB)[^\s(;{=\[]*)', text, re.M):
        S.count('definitions')
        f = m.group(1)
        if re.match(r'Py\w*__PythonHelper::(?!_wrap_)', f):
            continue        # the overrides have the name the C++ method has
        S.check(all(ID.match(x) for x in f.split('::')), 'definition:' + re.sub(r'[A-Za-z0-9_]+', 'x', f), 'the text defines %r' % f, repro=script)
    # same names when everything is generated again from the same declarations
    ns2, text2 = generate(lines)
    S.check(text == text2, 'deterministic', 'the same declarations give a different module', repro=script)


# ---------------------------------------------------------------- custom names

class Model(object):
    def __init__(self, derived):
        self.derived, self.custom = derived, None

    @property
    def visible(self):
        return self.derived if self.custom is None else self.custom


def custom(S):
    T = [(), ('int',), ('a::B *', 'int'), ['char']]
    for i in range(6000 if S.thorough else 1500):
        kind = S.rng.choice(['function', 'method'])
        name = S.rng.choice(['f', 'GetX', 'operator()', 'f<int>', 'a_b', 'tpl'])
        t = S.rng.choice(T)
        c0 = S.rng.choice([None, None, 'first', 'x', name])
        hist = ['%s(%r, template_parameters=%r, custom_name=%r)' % (kind, name, t, c0)]
        mk = function.Function if kind == 'function' else cppmethod.CppMethod
        w = mk(name, retval('int'), [param('int', 'x')], template_parameters=t, custom_name=c0)
        m = Model(utils.get_mangled_name(name, t))
        m.custom = c0
        for j in range(S.rng.choice([0, 1, 2, 4])):
            op = S.rng.choice(['set', 'del', 'clone', 'get'])
            if op == 'set':
                c = S.rng.choice(['a', 'Other', '__len__', 'x', m.derived, name, 'f__lt__int__gt__'])
                w.custom_name = c
                m.custom = c
                hist.append('custom_name = %r' % c)
            elif op == 'del':
                w.custom_name = None
                m.custom = None
                hist.append('custom_name = None')
            elif op == 'clone' and kind == 'function':
                w = w.clone()
                hist.append('clone')
            elif op == 'clone':
                w = w.clone()
                hist.append('clone')
            state(S, w, m, hist)
        state(S, w, m, hist)


def state(S, w, m, hist):
    S.case(tuple(hist), '; '.join(hist))
    S.check(w.mangled_name == m.visible, 'visible:%s' % hist[-1].split(' ')[0].split('(')[0], 'after %s: the visible name is %r, expected %r' % ('; '.join(hist), w.mangled_name, m.visible), repro='; '.join(hist))
    want = m.custom if m.custom != m.derived else None
    S.check(w.custom_name in (want, m.custom), 'reported', 'after %s: the custom name reported is %r, expected %r' % ('; '.join(hist), w.custom_name, want), repro='; '.join(hist))


def tables(S):
    """the visible name in the tables, in overload sets and in classes that inherit the method"""
    for i in range(400 if S.thorough else 100):
        lines = ["mod = Module('m')", "a = mod.add_class('A')", "a.add_constructor([])", "b = mod.add_class('B')", "b.add_constructor([])"]
        want = {}
        for own, tab in (('mod', 'm_functions'), ('a', 'PyA_methods')):
            for j in range(S.rng.choice([1, 2, 3])):
                name = S.rng.choice(['f', 'g', 'h'])
                t = S.rng.choice([None, None, ['int'], ['double', 'a::B']])
                c = S.rng.choice([None, None, 'Other', 'x', 'f'])
                vis = c or utils.get_mangled_name(name, t or [])
                want.setdefault(tab, {}).setdefault(vis, []).append(j)
                lines.append("%s.add_%s(%r, retval('int'), [param(%r, 'x%d')]%s%s)" % (own, 'function' if own == 'mod' else 'method', name, S.rng.choice(['int', 'double']), j,
                             ', template_parameters=%r' % t if t else '', ', custom_name=%r' % c if c else ''))
        pub, pro = S.rng.choice([None, 'seen', 'operator_x']), S.rng.choice([None, 'hidden', '_own'])
        pn, qn = S.rng.choice(['v', 'operator+', 'operator[]']), S.rng.choice(['p', 'operator-', 'operator()'])
        lines += ["v = mod.add_class('V', allow_subclassing=True)", "v.add_constructor([])",
                  "v.add_method(%r, retval('int'), [param('int', 'x')], is_virtual=True%s)" % (pn, ', custom_name=%r' % pub if pub else ''),
                  "v.add_method(%r, retval('int'), [param('int', 'x')], is_virtual=True, visibility='protected'%s)" % (qn, ', custom_name=%r' % pro if pro else '')]
        vis = sorted([pub or utils.get_mangled_name(pn, ()), pro or utils.get_mangled_name(qn, ())])
        lines += ["c = mod.add_class('C', parent=[b, a])", "c.add_constructor([])", "e = mod.add_class('D')", "e.add_constructor([])"]
        cl = S.rng.choice(['Kl', 'Kl<int>', 'Kl'])
        cc = S.rng.choice([None, 'Renamed', 'other'])
        tp = S.rng.choice([None, ['int']])
        lines += ["k = mod.add_class(%r%s%s)" % (cl, ', custom_name=%r' % cc if cc else '', ', template_parameters=%r' % tp if tp else ''), "k.add_constructor([])"]
        ns, text = generate(lines)
        script = '\n'.join(lines)
        S.case(script)
        for tab in ('m_functions', 'PyA_methods'):
            got = rows(text, tab)
            S.check(sorted(got) == sorted(want.get(tab, {})), 'table:%s' % tab, '%s lists %r, expected %r' % (tab, sorted(got), sorted(want.get(tab, {}))), repro=script)
        # C inherits from several parents: the methods of A are wrapped again, under the same names
        got = rows(text, 'PyC_methods')
        S.check(sorted(got) == sorted(want.get('PyA_methods', {})), 'table:inherited', 'PyC_methods lists %r, expected %r' % (sorted(got), sorted(want.get('PyA_methods', {}))), repro=script)
        # the public and the protected virtual method are listed under their visible names, and these are what the overrides look up
        got = sorted(n for n in rows(text, 'PyV_methods') if n != '__copy__')
        S.check(got == vis, 'table:virtual', 'PyV_methods lists %r, expected %r' % (got, vis), repro=script)
        ask = sorted(set(re.findall(r'PyObject_GetAttrString\(m_pyself, \(char \*\) "([^"]*)"\)', text)))
        S.check(ask == vis, 'override:asks', 'the overrides of V look up %r, expected %r' % (ask, vis), repro=script)
        ask = sorted(set(re.findall(r'PyObject_CallMethod\(m_pyself, \(char \*\) "([^"]*)"', text)))
        S.check(ask == vis, 'override:calls', 'the overrides of V call %r, expected %r' % (ask, vis), repro=script)
        k = ns['k']
        if cc:
            S.check(k.get_python_name() == cc, 'class:python-name', 'class %r with custom name %r is called %r' % (cl, cc, k.get_python_name()), repro=script)
            for pat in (r'PyModule_AddObject\(m, \(char \*\) "%s", \(PyObject \*\) &%s\)' % (cc, k.pytypestruct), r'\(char \*\) "m\.%s",\s+/\* tp_name \*/' % cc):
                S.check(re.search(pat, text), 'class:registered', 'class %r with custom name %r: no %s' % (cl, cc, pat), repro=script)
            old = utils.mangle_name(cl)
            S.check(not re.search(r'PyModule_AddObject\(m, \(char \*\) "(%s|%s)"' % (re.escape(cl), re.escape(k.mangled_name)), text), 'class:old-name', 'class %r with custom name %r is also registered under its own name' % (cl, cc), repro=script)


def rows(text, tab):
    m = re.search(r'static PyMethodDef %s\[\] = \{\n(.*?)\n\};' % tab, text, re.S)
    return re.findall(r'^ *\{\(char \*\) "((?:[^"\\]|\\.)*)"', m.group(1), re.M) if m else []


def run(S):
    settings.deprecated_virtuals = False
    mangling(S)
    again(S)
    custom(S)
    modules(S)
    tables(S)
    again(S)
