"""The handler grid: every built-in type handler, direction and option, as function
parameter, virtual-method parameter and return value, alone and in combination."""
import itertools
import random
from .corpus import Mod, P, R, I, O, IO

INT_VALUES = ['int', 'int32_t', 'unsigned int', 'uint32_t', 'uint16_t', 'unsigned short', 'unsigned short int', 'int16_t', 'short', 'short int',
              'uint8_t', 'unsigned char', 'int8_t', 'signed char', 'unsigned long long', 'uint64_t', 'unsigned long',
              'unsigned long int', 'long', 'long int', 'signed long', 'size_t', 'std::size_t', 'long long', 'int64_t']
INT_REFS = ['int&', 'unsigned int&', 'uint16_t&', 'unsigned short&', 'int16_t&', 'short&', 'uint8_t&', 'unsigned char&', 'int8_t&', 'signed char &']
INT_INREFS = ['unsigned long long&', 'uint64_t&', 'unsigned long&', 'long&', 'long long&', 'int64_t&']
INT_PTRS = ['int*', 'unsigned int*', 'uint32_t*', 'int8_t*', 'uint8_t*', 'uint16_t*', 'unsigned short int*']
SMALL = ['uint16_t', 'unsigned short', 'unsigned short int', 'int16_t', 'short', 'short int', 'uint8_t', 'unsigned char', 'int8_t', 'signed char',
         'short unsigned int', 'char unsigned', 'char signed']


def params():
    """every parameter form: (P without name)"""
    out = []
    for t in INT_VALUES + ['short unsigned int', 'char unsigned', 'char signed']:
        out.append(P(t, 'x'))
        out.append(P(t, 'x', default='7'))
    for t in INT_REFS:
        for d in (I, O, IO):
            out.append(P(t, 'x', d))
    for t in INT_INREFS:
        out.append(P(t, 'x', I))
    for t in INT_PTRS:
        for d in (I, O, IO):
            out.append(P(t, 'x', d))
    out.append(P('int*', 'x', I, default='NULL'))
    for d in (I, O, IO):
        out.append(P('unsigned int*', 'x', d, array_length=3))
        out.append(P('float*', 'x', d, array_length=3))
    for t in ('bool', 'float', 'double', 'char', 'char*', 'std::string', 'Glib::ustring', 'E'):
        out.append(P(t, 'x'))
    out.append(P('bool', 'x', default='true'))
    out.append(P('float', 'x', default='1.5'))
    out.append(P('double', 'x', default='1.5'))
    out.append(P('std::string', 'x', default='"a"'))
    out.append(P('char*', 'x', default='NULL'))
    out.append(P('E', 'x', default='e0'))
    for t in ('bool*', 'bool&', 'float*', 'float&', 'double*', 'double&', 'std::string&', 'std::string*', 'Glib::ustring&', 'Glib::ustring*'):
        for d in (I, O, IO):
            out.append(P(t, 'x', d))
    out.append(P('std::string const &', 'x', default='"a"'))
    out.append(P('char const *', 'x'))
    out.append(P('int const', 'x'))
    out.append(P('int const &', 'x'))
    out.append(P('const bool &', 'x'))
    out.append(P('const double &', 'x'))
    for own in (True, False):
        out.append(P('PyObject*', 'x', transfer_ownership=own))
    for c in ('K', 'ns::N', 'V', 'R', 'Sub'):
        out.append(P(c, 'x'))
        out.append(P('%s const &' % c, 'x'))
        for d in (I, O, IO):
            out.append(P('%s &' % c, 'x', d))
        for own in (True, False):
            out.append(P('%s *' % c, 'x', transfer_ownership=own))
        out.append(P('%s const *' % c, 'x', transfer_ownership=False))
        out.append(P('%s *' % c, 'x', transfer_ownership=False, default_value='NULL'))
        out.append(P('%s *' % c, 'x', transfer_ownership=False, null_ok=True))
    out.append(P('K', 'x', default='K()'))
    out.append(P('S *', 'x', transfer_ownership=False))
    for t in ('boost::shared_ptr< S >',):
        out.append(P(t, 'x'))
    out.append(P('std::vector< int >', 'x'))
    out.append(P('std::vector< int > const &', 'x'))
    out.append(P('std::map< std::string, int >', 'x'))
    for d in (I, O, IO):
        out.append(P('std::vector< int > &', 'x', d))
        out.append(P('std::vector< int > *', 'x', d))
    return out


def returns():
    out = [R('void')]
    for t in INT_VALUES + ['short unsigned int', 'char unsigned']:
        out.append(R(t))
    for t in ('bool', 'float', 'double', 'char', 'char*', 'char const *', 'std::string', 'std::string const', 'std::string &', 'std::string const &',
              'Glib::ustring', 'E', 'int const'):
        out.append(R(t))
    for own in (True, False):
        out.append(R('PyObject*', caller_owns_return=own))
    for c in ('K', 'ns::N', 'V', 'R', 'Sub'):
        out.append(R(c))
        for own in (True, False):
            out.append(R('%s *' % c, caller_owns_return=own))
        out.append(R('%s const *' % c, caller_owns_return=False))
        out.append(R('%s &' % c))
        out.append(R('%s &' % c, caller_owns_return=False))
        out.append(R('%s const &' % c))
        out.append(R('%s &' % c, reference_existing_object=True))
        out.append(R('%s *' % c, reference_existing_object=True))
        out.append(R('%s *' % c, return_internal_reference=True))
    out.append(R('boost::shared_ptr< S >'))
    out.append(R('std::vector< int >'))
    out.append(R('std::map< std::string, int >'))
    return out


def virtual_ok(r):
    """non-const references cannot be returned by an override: refused when declared"""
    return r.form != 'ref'


def base_module(registry=None, throws=True, vr=True, mem_r=True, opts=''):
    m = Mod('m', registry=registry)
    m.enum('E', ['e0', 'e1'])
    if throws:
        m.exc('Err', message_rvalue='%(EXC)s.what()')
        m.exc('Err2')
        m.exc('SE', standard_error='RuntimeError', message_rvalue='%(EXC)s.what()') if False else None
    k = m.cls('K', opts=opts)
    m.ctor(k)
    m.ctor(k, copy=True)
    n = m.cls('N', 'ns_N', ns='ns', opts=opts)
    m.ctor(n)
    m.ctor(n, copy=True)
    v = m.cls('V', subclassable=True, opts=opts)
    m.ctor(v)
    m.ctor(v, copy=True)
    m.method(v, 'vv', R('int'), [P('int', 'a')], virtual=True)
    sub = m.cls('Sub', parents=[k], opts=opts)
    m.ctor(sub)
    m.ctor(sub, copy=True)
    s = m.cls('S', mem="smart_ptr.BoostSharedPtr('::S')")
    m.ctor(s)
    m.ctor(s, copy=True)
    if mem_r:
        r = m.cls('R', mem="cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref', peekref_method='PeekRef')")
        m.ctor(r)
        m.ctor(r, copy=True)
        m.extra_known.update(['Ref', 'Unref', 'PeekRef'])
    if vr:
        m.container('std::vector< int >', "'int'", 'vector')
        m.container('std::map< std::string, int >', "('std::string', 'int')", 'map')
    m.base = dict(K=k, N=n, V=v, S=s, Sub=sub)
    return m


NAMES = ['a', 'retval', 'py_retval', 'keywords', 'self', 'args', 'kwargs', 'tmp', 'py_list', 'idx', 'element', 'return_exception', 'value', 'b',
         'x_ptr', 'x', 'b_len', 'py_method', 'self_obj_before', 'name', 'helper', 'exc', 'py_K', 'container']


def chunks(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def distinct(names):
    return len(set(names)) == len(names)


def grid_modules(rng, thorough=False, combos=60, adversarial=True):
    """list of Mod covering the grid"""
    mods = []
    ps, rs = params(), returns()
    _uid[0] = 0
    # 1. each parameter alone, function + virtual method; with int return so ordering is visible
    for ch in chunks(ps, 12):
        m = base_module()
        for p in ch:
            m.func('f%d' % uid(), R('int'), [p.rename('x')])
            c = m.cls('VC%d' % uid(), subclassable=True)
            m.ctor(c)
            m.method(c, 'g%d' % uid(), R('int'), [p.rename('x')], virtual=True)
        mods.append(m)
    # 2. each return, alone and with an output parameter
    for ch in chunks(rs, 12):
        m = base_module()
        for r in ch:
            m.func('f%d' % uid(), r, [])
            m.func('f%d' % uid(), r, [P('int', 'a'), P('int&', 'b', O)])
            c = m.cls('VC%d' % uid(), subclassable=True)
            m.ctor(c)
            vt = virtual_ok(r)
            m.method(c, 'g%d' % uid(), r, [P('double&', 'b', O)], virtual=vt)
            m.method(c, 'g%d' % uid(), r, [P('int', 'a')], virtual=vt, const=True)
            m.method(c, 'g%d' % uid(), r, [], virtual=vt, pure=vt and bool(rng.random() < .2))
        mods.append(m)
    # 3. random combinations
    n = combos * (4 if thorough else 1)
    per = 6
    for k in range(0, n, per):
        m = base_module(registry='StdMapWrapperRegistry' if rng.random() < .15 else None)
        for j in range(per):
            q = rng.choice([2, 2, 3, 4])
            req = [rng.choice(ps) for _ in range(q)]
            req.sort(key=lambda p: p.default is not None or 'default_value' in p.kw)
            nm = rng.sample(NAMES, q) if adversarial and rng.random() < .5 else ['p%d' % i for i in range(q)]
            req = [p.rename(x) for p, x in zip(req, nm)]
            r = rng.choice(rs)
            th = rng.choice([[], [], ['Err'], ['Err', 'Err2'], ['Err2', 'Err']])
            ub = rng.choice([None, True])
            kind = rng.choice(['func', 'func', 'method', 'static', 'virtual', 'ctor', 'nsfunc'])
            if kind == 'virtual' and not virtual_ok(r):
                kind = 'method'
            if kind == 'ctor' and any(p.dir & O for p in req):
                kind = 'static'      # constructors cannot give values back (refused with an assertion)
            if kind == 'func':
                m.func('f%d' % uid(), r, req, throws=th, unblock=ub)
            elif kind == 'nsfunc':
                m.func('f%d' % uid(), r, req, throws=th, unblock=ub, ns='ns')
            else:
                c = m.cls('VC%d' % uid(), subclassable=kind in ('virtual', 'ctor') and rng.random() < .7)
                if kind == 'ctor':
                    m.ctor(c, req, throws=th, unblock=ub)
                else:
                    m.ctor(c)
                    m.method(c, 'g%d' % uid(), r, req, virtual=kind == 'virtual', static=kind == 'static',
                             const=kind == 'virtual' and rng.random() < .3,
                             throws=th if kind != 'virtual' else [], unblock=ub if kind != 'virtual' else None)
        mods.append(m)
    return mods


# ---------------------------------------------------------------- the rest of the API

ATTR_TYPES = ['int', 'unsigned int', 'short', 'uint16_t', 'uint8_t', 'int8_t', 'unsigned char', 'long', 'unsigned long', 'long long',
              'unsigned long long', 'size_t', 'int64_t', 'uint64_t', 'bool', 'float', 'double', 'char', 'char const *', 'std::string', 'E',
              'K', 'ns::N', 'V', 'Sub', 'std::vector< int >', 'std::map< std::string, int >', 'boost::shared_ptr< S >', 'R']


def attr_values():
    """(C type, options) usable for attributes"""
    out = [(t, {}) for t in ATTR_TYPES]
    for c in ('K', 'ns::N', 'V', 'Sub'):
        out.append((c + ' *', dict(return_internal_reference=True)) if False else (c + ' *', dict(caller_owns_return=False)))
        out.append((c + ' *', dict(caller_owns_return=True)))
        out.append((c + ' *', dict(reference_existing_object=True)))
    out.append(('K &', dict(caller_owns_return=False)))
    out.append(('PyObject*', dict(caller_owns_return=False)))
    return out


def attr_modules(rng, thorough=False):
    mods = []
    vals = attr_values()
    for ch in chunks(vals, 6):
        m = base_module(registry='StdMapWrapperRegistry' if rng.random() < .2 else None)
        for (t, kw) in ch:
            for kind in ('plain', 'sub', 'child', 'shared', 'ns'):
                if kind != 'plain' and not thorough and rng.random() < .5:
                    continue
                n = uid()
                if kind == 'plain':
                    c = m.cls('VC%d' % n)
                elif kind == 'sub':
                    c = m.cls('VC%d' % n, subclassable=True)
                elif kind == 'child':
                    c = m.cls('VC%d' % n, parents=[m.base['V']])
                elif kind == 'shared':
                    c = m.cls('VC%d' % n, mem="smart_ptr.BoostSharedPtr('::VC%d')" % n)
                else:
                    c = m.cls('VC%d' % n, ns='ns')
                m.ctor(c)
                m.attr(c, 'ar%d' % n, t, **kw)
                m.attr(c, 'ac%d' % n, t, const=True, **kw)
                m.attr(c, 'sr%d' % n, t, static=True, **kw)
                m.attr(c, 'sc%d' % n, t, static=True, const=True, **kw)
                m.attr(c, 'gs%d' % n, t, getter='Get%d' % n, setter='Set%d' % n, **kw)
                m.attr(c, 'gc%d' % n, t, const=True, getter='Get%d' % n, py='renamed%d' % n, **kw)
                m.attr(c, 'cg%d' % n, t, custom=True, getter='cget%d' % n, setter='cset%d' % n, py='cren%d' % n, **kw)
                m.attr(c, 'cc%d' % n, t, custom=True, getter='cget%d' % n, const=True, **kw)
                m.extra_known.update(['Get%d' % n, 'Set%d' % n, 'cget%d' % n, 'cset%d' % n])
        mods.append(m)
    return mods


def operator_modules(rng, thorough=False):
    mods = []
    for k in range(3 if not thorough else 8):
        m = base_module()
        for j in range(3):
            n = uid()
            c = m.cls('VC%d' % n, subclassable=rng.random() < .5)
            m.ctor(c)
            m.ctor(c, copy=True)
            for op in ('==', '!=', '<', '<=', '>', '>='):
                if rng.random() < .6:
                    m.line('%s.add_binary_comparison_operator(%r)' % (c.var, op))
            for op in ('+', '-', '*', '/'):
                if rng.random() < .7:
                    m.line('%s.add_binary_numeric_operator(%r)' % (c.var, op))
                if rng.random() < .5:
                    m.line('%s.add_binary_numeric_operator(%r, right=%r)' % (c.var, op, rng.choice(['double', 'int', 'K'])))
                if rng.random() < .5:
                    m.line('%s.add_inplace_numeric_operator(%r)' % (c.var, op + '='))
                if rng.random() < .3:
                    m.line('%s.add_inplace_numeric_operator(%r, right=%r)' % (c.var, op + '=', rng.choice(['double', 'int'])))
            if rng.random() < .7:
                m.line('%s.add_unary_numeric_operator("-")' % c.var)
            if rng.random() < .7:
                m.line('%s.add_output_stream_operator()' % c.var)
            n = uid()
            s = m.cls('VC%d' % n)
            m.ctor(s)
            m.ctor(s, copy=True)
            m.method(s, 'size%d' % n, R('size_t'), [], py='__len__', const=True)
            m.method(s, 'get%d' % n, R('int'), [P('int', 'index')], py='__getitem__')
            m.method(s, 'set%d' % n, R(rng.choice(['int', 'void'])), [P('int', 'index'), P('int', 'value')], py='__setitem__')
            if rng.random() < .7:
                m.method(s, 'slice%d' % n, R('VC%d' % n), [P('int', 'index1'), P('int', 'index2')], py='__getslice__')
                m.method(s, 'setslice%d' % n, R(rng.choice(['int', 'void'])), [P('int', 'index1'), P('int', 'index2'), P('VC%d &' % n, 'v')], py='__setslice__')
            if rng.random() < .7:
                m.method(s, 'contains%d' % n, R('int'), [P('int', 'value')], py='__contains__')
            if rng.random() < .7:
                m.method(s, 'iadd%d' % n, R('VC%d' % n), [P('VC%d &' % n, 'o')], py='__iadd__')
                m.method(s, 'imul%d' % n, R('VC%d' % n), [P('unsigned int', 'n')], py='__imul__')
                m.method(s, 'add%d' % n, R('VC%d' % n), [P('VC%d &' % n, 'o')], py='__add__')
                m.method(s, 'mul%d' % n, R('VC%d' % n), [P('unsigned int', 'n')], py='__mul__')
            if rng.random() < .5:
                m.method(s, 'call%d' % n, R('int'), [P('int', 'x')], py='__call__')
        mods.append(m)
    return mods


CONTAINERS = [('std::vector< %s >', 'vector'), ('std::list< %s >', 'list'), ('std::set< %s >', 'set'), ('std::deque< %s >', 'deque'),
              ('std::multiset< %s >', 'multiset')]
CVALUES = ['int', 'unsigned int', 'uint8_t', 'int16_t', 'bool', 'double', 'float', 'std::string', 'K', 'long', 'unsigned long', 'long long',
           'size_t', 'uint64_t', 'std::vector< int >', 'E', 'V', 'ns::N', 'uint16_t']


def container_modules(rng, thorough=False):
    mods = []
    vals = list(CVALUES)
    for ch in chunks(vals, 5):
        m = base_module()
        for v in ch:
            for (nm, kind) in (CONTAINERS if thorough else rng.sample(CONTAINERS, 2)):
                cn = nm % v
                if cn == 'std::vector< int >':
                    continue
                m.container(cn, repr(v), kind)
                n = uid()
                m.func('f%d' % n, R(cn), [P(cn, 'x'), P(cn + ' const &', 'y')])
                for d in (I, O, IO):
                    m.func('f%d' % uid(), R('int'), [P(cn + ' &', 'x', d)])
                    m.func('f%d' % uid(), R('int'), [P(cn + ' *', 'x', d)])
            if rng.random() < .8 or thorough:
                cn = 'std::map< %s, %s >' % ('std::string', v)
                if cn != 'std::map< std::string, int >':
                    m.container(cn, repr(('std::string', v)), 'map')
                    m.func('f%d' % uid(), R(cn), [P(cn, 'x')])
            if v in ('int', 'uint8_t', 'std::string', 'int16_t'):
                cn = 'std::map< %s, %s >' % (v, 'float')
                if v == 'std::string':
                    continue
                m.container(cn, repr((v, 'float')), 'map')
                m.func('f%d' % uid(), R(cn), [P(cn + ' const &', 'x')])
        mods.append(m)
    return mods


def other_modules(rng, thorough=False):
    """overloads, exceptions, narrowing, nested scopes, implicit conversions, functions as methods/constructors, protected virtuals"""
    mods = []
    for k in range(3 if not thorough else 8):
        m = base_module(registry='StdMapWrapperRegistry' if k % 3 == 1 else None)
        m.line("std_err = mod.add_exception('exception', foreign_cpp_namespace='std', custom_name='StdExc', message_rvalue='%(EXC)s.what()')")
        m.line("rt_err = mod.add_exception('RuntimeError', custom_name='RuntimeError', is_standard_error=True, message_rvalue='%(EXC)s.what()')")
        m.extra_known.update(['exception', 'RuntimeError'])
        # overloads
        for j in range(3):
            n = uid()
            for q in range(rng.choice([2, 3, 4])):
                ps = [P(rng.choice(['int', 'double', 'std::string', 'K &', 'V *', 'bool', 'std::vector< int >']), 'a%d' % i,
                        **(dict(transfer_ownership=False) if False else {})) for i in range(rng.choice([0, 1, 2, 3]))]
                ps = [P(p.ctype, p.name, transfer_ownership=False) if p.ctype == 'V *' else p for p in ps]
                m.func('f%d' % n, R(rng.choice(['int', 'void', 'K', 'std::string'])), ps,
                       throws=rng.choice([[], [], ['Err'], ['std_err'], ['rt_err', 'Err2']]), unblock=rng.choice([None, True]))
        # type narrowing, nested classes, multiple inheritance
        n = uid()
        m.line("T1 = mod.add_class('T1', automatic_type_narrowing=True, allow_subclassing=%r)" % bool(rng.random() < .5))
        m.line("T1.add_constructor([])")
        m.line("T2 = mod.add_class('T2', parent=T1)")
        m.line("T2.add_constructor([])")
        m.extra_known.update(['T1', 'T2', 'T1__typeid_map'])
        m.func('f%d' % uid(), R('T1 *', caller_owns_return=True), [P('T2 *', 'o', transfer_ownership=False)])
        m.func('f%d' % uid(), R('T1 *', caller_owns_return=False), [P('T1 &', 'o')])
        m.line("NEST = K.add_class('Inner')")
        m.line("NEST.add_constructor([])")
        m.line("NEST.add_instance_attribute('inn', retval('int'))")
        m.line("K.add_enum('KE', ['KE_A', 'KE_B'])")
        m.extra_known.update(['Inner', 'inn', 'KE', 'KE_A', 'KE_B'])
        c = m.cls('VC%d' % uid(), parents=[m.base['K'], m.base['N']])
        m.ctor(c)
        m.method(c, 'g%d' % uid(), R('int'), [P('int', 'x')])
        # implicit conversions
        m.line("Sub.implicitly_converts_to(ns_N)")
        m.func('f%d' % uid(), R('int'), [P('ns::N', 'x')])
        m.func('f%d' % uid(), R('int'), [P('ns::N &', 'x')])
        m.func('f%d' % uid(), R('int'), [P('ns::N const &', 'x'), P('int', 'y')])
        # protected / private / pure virtual methods
        c = m.cls('VC%d' % uid(), subclassable=True)
        m.ctor(c)
        for vis in ('public', 'protected', 'private'):
            m.method(c, 'g%d' % uid(), R(rng.choice(['int', 'K', 'void', 'std::string'])), [P('int', 'x'), P('int&', 'y', O)], virtual=True, visibility=vis,
                     const=rng.random() < .5)
            m.method(c, 'g%d' % uid(), R(rng.choice(['int', 'K', 'void'])), [P('double', 'x')], virtual=True, pure=True, visibility=vis)
        m.method(c, 'g%d' % uid(), R('int'), [P('int', 'x')], visibility='protected', unblock=rng.choice([None, True]))
        d = m.cls('VC%d' % uid(), parents=[c], subclassable=True)
        m.ctor(d, [P('int', 'x')], visibility='protected')
        e = m.cls('VC%d' % uid(), parents=[c])
        m.ctor(e)
        # functions as methods and constructors
        m.line("K.add_function_as_method('km%d', retval('int'), [param('K &', 'k'), param('int', 'x')], custom_name='km')" % n)
        for q in range(rng.choice([1, 2])):
            c = m.cls('VC%d' % uid())
            for i in range(rng.choice([1, 2])):
                m.asctor(c, 'kc%d' % uid(), [P('double', 'x')] if i else [P(rng.choice(['int', 'short', 'std::string', 'K &']), 'x')], unblock=rng.choice([None, True, False]))
            if rng.random() < .5:
                m.ctor(c, [P('int', 'x'), P('int', 'y')])
        m.extra_known.update(['km%d' % n])
        # templates, custom names, deprecation
        m.func('f%d' % uid(), R('int'), [P('int', 'x')], template=['int'], py='templ%d' % n)
        m.func('f%d' % uid(), R('int'), [P('int', 'x')], deprecated='no more')
        m.method(m.base['K'], 'g%d' % uid(), R('int'), [], deprecated=True)
        # ref-counted and singleton
        m.line("SG = mod.add_class('SG', is_singleton=True)")
        m.extra_known.add('SG')
        m.line("SG.add_constructor([])")
        m.line("FF = mod.add_class('FF', memory_policy=cppclass.FreeFunctionPolicy('ff_free'))")
        m.line("FF.add_constructor([])")
        m.line("RF = mod.add_class('RF', memory_policy=cppclass.ReferenceCountingFunctionsPolicy(incref_function='rf_ref', decref_function='rf_unref'))")
        m.line("RF.add_constructor([])")
        m.extra_known.update(['FF', 'RF', 'ff_free', 'rf_ref', 'rf_unref'])
        for cn in ('FF', 'RF'):
            for own in (True, False):
                m.func('f%d' % uid(), R('%s *' % cn, caller_owns_return=own), [P('%s *' % cn, 'x', transfer_ownership=own)])
        mods.append(m)
    return mods


def all_modules(rng, thorough=False, **kw):
    return (grid_modules(rng, thorough, **kw) + attr_modules(rng, thorough) + operator_modules(rng, thorough) + container_modules(rng, thorough)
            + other_modules(rng, thorough))
