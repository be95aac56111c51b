"""Contracts of the Python C API (CPython 3.12) for the emitted code."""
import re
import z3
from .ctypes_ import norm, strip_const, base_int, irange

MACROS = set('''NULL Py_None Py_True Py_False METH_VARARGS METH_KEYWORDS METH_NOARGS METH_STATIC Py_EQ Py_NE Py_LT Py_LE
 Py_GT Py_GE Py_NotImplemented true false MOD_ERROR offsetof stderr stdout'''.split())


HEADERS = None


def headers():
    """the names the installed Python.h and the files it includes mention"""
    global HEADERS
    if HEADERS is None:
        import sysconfig, os
        HEADERS = set()
        for d in set(sysconfig.get_paths()[k] for k in ('include', 'platinclude')):
            for root, dirs, files in os.walk(d):
                for f in files:
                    if f.endswith('.h'):
                        with open(os.path.join(root, f), errors='replace') as h:
                            HEADERS.update(re.findall(r'\b_?Py\w*', h.read()))
        HEADERS.update(PY2)
    return HEADERS


# what the generated preamble defines for both versions of Python
PY2 = ['PyString_FromString', 'PyCObject_FromVoidPtr', 'PyCObject_AsVoidPtr', 'Py_TPFLAGS_CHECKTYPES', 'PyMODINIT_FUNC']


def known(name):
    if re.match(r'^_?Py([A-Z_]|$)', name):
        h = headers()
        return name in h or len(h) < 1000 or name.endswith('_Type') or '_' not in name[3:]
    return name in MACROS or name.startswith(('PYBINDGEN_', 'METH_', 'CHAR_', 'SHRT_', 'INT_', 'UCHAR', 'USHRT', 'offsetof')) \
        or name in ('strlen', 'strdup', 'free', 'malloc', 'memcpy', 'size_t', 'wcslen')


# unit -> list of (role, C type pointed to / of value)
PARSE = {
    's': ['char const*'], 'z': ['char const*'], 'y': ['char const*'], 's#': ['char const*', 'Py_ssize_t'], 'z#': ['char const*', 'Py_ssize_t'],
    'y#': ['char const*', 'Py_ssize_t'], 'u': ['wchar_t*'], 'u#': ['wchar_t*', 'Py_ssize_t'], 'U': ['PyObject*'], 'S': ['PyObject*'],
    'b': ['unsigned char'], 'B': ['unsigned char'], 'h': ['short'], 'H': ['unsigned short'], 'i': ['int'], 'I': ['unsigned int'],
    'l': ['long'], 'k': ['unsigned long'], 'L': ['long long'], 'K': ['unsigned long long'], 'n': ['Py_ssize_t'],
    'c': ['char'], 'C': ['int'], 'f': ['float'], 'd': ['double'], 'O': ['PyObject*'], 'p': ['int'],
}
PARSE_RANGE = {'b': (8, False), 'h': (16, True), 'i': (32, True), 'l': (64, True), 'L': (64, True), 'n': (64, True)}
PARSE_MASK = {'B': (8, False), 'H': (16, False), 'I': (32, False), 'k': (64, False), 'K': (64, False)}
BUILD = {
    's': ['char const*'], 'z': ['char const*'], 'y': ['char const*'], 's#': ['char const*', 'Py_ssize_t'], 'z#': ['char const*', 'Py_ssize_t'],
    'y#': ['char const*', 'Py_ssize_t'], 'u': ['wchar_t*'], 'u#': ['wchar_t*', 'Py_ssize_t'], 'U': ['char const*'],
    'b': ['char'], 'B': ['unsigned char'], 'h': ['short'], 'H': ['unsigned short'], 'i': ['int'], 'I': ['unsigned int'],
    'l': ['long'], 'k': ['unsigned long'], 'L': ['long long'], 'K': ['unsigned long long'], 'n': ['Py_ssize_t'],
    'c': ['char'], 'C': ['int'], 'f': ['float'], 'd': ['double'], 'O': ['PyObject*'], 'N': ['PyObject*'], 'S': ['PyObject*'],
}


def units(fmt, parse):
    """split a format string into units; returns list of (unit, optional) or None"""
    out = []
    i = 0
    opt = False
    depth = 0
    while i < len(fmt):
        c = fmt[i]
        if c in ' \t,:' and not (parse and c == ':'):
            i += 1
            continue
        if c == '(':
            depth += 1
            out.append(('(', opt))
            i += 1
            continue
        if c == ')':
            depth -= 1
            if depth < 0:
                return None
            out.append((')', opt))
            i += 1
            continue
        if parse and c == '|':
            if opt or depth:
                return None
            opt = True
            out.append(('|', True))
            i += 1
            continue
        if parse and c in ':;':
            break
        u = c
        n = fmt[i + 1] if i + 1 < len(fmt) else ''
        if c in 'szyu' and n == '#':
            u = c + '#'
        elif c in 'ONS' and n == '&':
            u = c + '&'
        elif parse and c == 'O' and n == '!':
            u = 'O!'
        elif parse and c == 'e' and n == 't' and fmt[i + 2:i + 3] != '#':
            u = 'et'
        elif c == 'e':
            return None
        if u not in (PARSE if parse else BUILD) and u not in ('O!', 'O&', 'N&', 'S&', 'et'):
            return None
        out.append((u, opt))
        i += len(u)
    if depth:
        return None
    return out


def handler(name):
    if name in H:
        return H[name]
    if re.match(r'^_?Py(?=[A-Z_])', name) and re.match(r'^_?Py[A-Za-z]*_', name) and not re.match(r'^Py\w*__', name):
        return generic
    return None


USER_NO_THROW = set('c_str size begin end length data clear name get push_back insert find first second tp_free m_pyself'.split())


CONST_METHODS = set('find end begin size c_str length bytes count'.split())     # of the standard containers and strings


def is_usercode(name, base, recv):
    if name in USER_NO_THROW or name.startswith('std::'):
        return False
    return True


def result_type(ex, name, base):
    if name == 'c_str':
        return 'char const*'
    if name in ('size', 'length'):
        return 'size_t'
    if name == 'strlen':
        return 'size_t'
    if name in ('strdup',):
        return 'char*'
    return ex.ctx.func_types.get(name, '')


def local_contract(ex, name):
    u = ex.ctx.unit
    if re.match(r'_wrap_convert_py2c__', name):
        return conv_py2c
    if re.match(r'_wrap_convert_c2py__', name):
        return conv_c2py
    m = re.match(r'(_wrap_\w+?)__(\d+)$', name)
    f = u.func(name)
    if f is None:
        for p in u.protos:
            if p.name == name:
                f = p
    if f is not None and f.params and norm(f.params[-1][0]).replace(' ', '') == 'PyObject**':
        return overload_slot
    if f is not None and norm(f.ret).startswith('PyObject') and '*' in f.ret and not f.name.count('::'):
        return local_newref
    return None


def _call(ex, n, name, vs, **kw):
    return ex.ev('call', name=name, base=None, recv=None, args=vs, node=n, api=True, argtext=[v.text for v in vs], text=_show(n), **kw)


def _show(n):
    from .sym import show
    return show(n)


def conv_py2c(ex, n, name, vs):
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = ex.fresh(name, 'int', origin=('api', True, name, vs))
    e.result = v
    ok = ex.truth(v)
    e.ok = ok
    if ok and len(vs) > 1 and vs[1].addr is not None:
        ty = ex.lvtype(vs[1].addr)
        nv = ex.fresh_int(vs[1].text, ty) if base_int(ty) and strip_const(ty) != 'bool' else ex.fresh(vs[1].text.lstrip('&'), ty)
        nv.origin = ('converted', e)
        ex.store(vs[1].addr, nv)
    return v


def conv_c2py(ex, n, name, vs):
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = ex.fresh(name, 'PyObject*', origin=('api', True, name, vs))
    e.result = v
    ex.own(v)
    return v


def local_newref(ex, n, name, vs):
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = ex.fresh(name, 'PyObject*', origin=('api', True, name, vs))
    e.result = v
    ex.own(v)
    return v


def overload_slot(ex, n, name, vs):
    """contract of one overload: either it refused the arguments (stores a new reference
    to the error in *return_exception, leaves no error set) or it was called"""
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    refused = ex.choose(2) == 0
    e.refused = refused
    slot = vs[-1]
    if refused:
        x = ex.fresh('exception of ' + name, 'PyObject*', origin=('exception', name))
        ex.facts[x.id] = True
        ex.own(x)
        if slot.addr is not None:
            ex.store(slot.addr, x)
        e.exc = x
    f = ex.ctx.unit.func(name)
    v = ex.fresh('result of ' + name, norm(f.ret) if f else '', origin=('slot', name, refused))
    e.result = v
    if not refused:
        # may also have raised: only the caller's caller sees that
        e.raised = None
    return v


def ev_args(ex, args):
    return [ex.eval(a) for a in args]


def generic(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    if name not in ('PyEval_ThreadsInitialized',):
        ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = ex.fresh(_show(n), '', origin=('api', True, name, vs))
    e.result = v
    return v


def newref(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    ty = 'PyObject*'
    if name in ('PyObject_New', 'PyObject_GC_New') and args:
        ty = norm(_show(args[0])) + '*'
    v = ex.fresh(_show(n), ty, origin=('api', True, name, vs))
    if name in ('PyObject_New', 'PyObject_GC_New'):
        # allocation failure is out of scope: the emitted code never tests it
        v.truth0 = True
    e.result = v
    ex.own(v)
    return v


def borrowed(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = ex.fresh(_show(n), 'PyObject*', origin=('api', False, name, vs))
    e.result = v
    return v


def intfn(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = ex.fresh(_show(n), 'int', origin=('api', True, name, vs))
    e.result = v
    return v


def predicate(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    k = ('pred', name) + tuple(v.id for v in vs)
    if k not in ex.heap:
        ex.heap[k] = ex.fresh(_show(n), 'int', origin=('pred', name, vs))
    v = ex.heap[k]
    e.result = v
    return v


def py_type(ex, n, name, args):
    vs = ev_args(ex, args)
    k = ('Py_TYPE', vs[0].id)
    if k not in ex.heap:
        ex.heap[k] = ex.fresh(_show(n), 'PyTypeObject*')
        ex.facts[ex.heap[k].id] = True
    return ex.heap[k]


def seterr(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    ex.err = True
    e.result = ex.fresh(_show(n), 'void')
    return e.result


def clrerr(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    e.had_err = ex.err
    ex.err = False
    if name == 'PyErr_Fetch':
        for i, v in enumerate(vs):
            x = ex.fresh('fetched%d' % i, 'PyObject*', origin=('fetched', i))
            if v.addr is not None:
                ex.store(v.addr, x)
            else:
                ex.store(('deref', v), x)
            if i != 1:
                ex.own(x)
            else:
                e.exc_dest = v
        e.fetched = True
    e.result = ex.fresh(_show(n), 'void')
    return e.result


def null_count(ex, e, v):
    """the object of Py_INCREF and Py_DECREF is not NULL"""
    ex.oblige('null', not (isinstance(v.lit, int) and v.lit == 0) and ex.fact(v) is not False, '%s of NULL' % e.name)


def incref(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    if name == 'Py_INCREF':
        null_count(ex, e, vs[0])
        ex.own(vs[0])
    elif ex.truth(vs[0]):
        ex.own(vs[0])
    e.result = ex.fresh(_show(n), 'void')
    return e.result


def decref(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    e = _call(ex, n, name, vs)
    v = vs[0]
    if name in ('Py_XDECREF', 'Py_CLEAR'):
        f = ex.fact(v)
        if f is False:
            e.result = ex.fresh('void', 'void')
            return e.result
    else:
        null_count(ex, e, v)
    ex.own(v, -1)
    if name == 'Py_CLEAR':
        lv = ex.lvalue(args[0])
        ex.store(lv, ex.e_name(None, 'NULL'))
        ex.ev('assign', lhs=_show(args[0]), lv=lv, value=ex.load(lv), rhs='NULL', node=n, op='=', old=None)
    e.result = ex.fresh(_show(n), 'void')
    return e.result


def steal(idx):
    def h(ex, n, name, args):
        vs = ev_args(ex, args)
        ex.line = n.line or ex.line
        ex.need_gil(name)
        e = _call(ex, n, name, vs)
        v = vs[idx]
        ex.own(v, -1)
        e.result = ex.fresh(_show(n), 'int', origin=('api', True, name, vs))
        return e.result
    return h


def gil_ensure(ex, n, name, args):
    e = _call(ex, n, name, [])
    v = ex.fresh('gilstate', 'PyGILState_STATE')
    ex.gilstack.append((v.id, ex.gil))
    ex.gil = 'held'
    e.result = v
    return v


def gil_release(ex, n, name, args):
    vs = ev_args(ex, args)
    e = _call(ex, n, name, vs)
    ok = bool(ex.gilstack) and ex.gilstack[-1][0] == vs[0].id
    ex.oblige('gil', ok, 'PyGILState_Release without a matching PyGILState_Ensure (or twice)')
    if ok:
        ex.gil = ex.gilstack.pop()[1]
    e.result = ex.fresh('void', 'void')
    return e.result


def save_thread(ex, n, name, args):
    ex.oblige('gil', ex.gil == 'held', 'the interpreter lock is released while it is not held')
    e = _call(ex, n, name, [])
    v = ex.fresh('threadstate', 'PyThreadState*')
    v.truth0 = True
    ex.gil = 'released'
    ex.saved = v
    e.result = v
    return v


def restore_thread(ex, n, name, args):
    vs = ev_args(ex, args)
    e = _call(ex, n, name, vs)
    ex.oblige('gil', ex.gil == 'released' and ex.saved is not None and ex.saved.id == vs[0].id,
              'PyEval_RestoreThread while the lock is held, or with another thread state')
    ex.gil = 'held'
    ex.saved = None
    e.result = ex.fresh('void', 'void')
    return e.result


def threads_initialized(ex, n, name, args):
    k = ('pred', name)
    if k not in ex.preds:
        ex.preds[k] = ex.fresh('PyEval_ThreadsInitialized()', 'int')
    v = ex.preds[k]
    if ex.fact(v) is None:
        ex.truth(v)
        if ex.facts[v.id] is False:
            ex.gil = 'held'      # no threads: the lock does not exist
    return v


def fatal(ex, n, name, args):
    from .sym import Fatal
    vs = ev_args(ex, args)
    ex.need_gil(name)
    _call(ex, n, name, vs)
    raise Fatal()


def fmt_of(v):
    return v.lit if isinstance(v.lit, str) else None


def same_width(want, got):
    """got: declared C type; want: type the unit uses"""
    w, g = strip_const(norm(want)), strip_const(norm(got))
    if w == g:
        return True
    bw, bg = base_int(w), base_int(g)
    if bw is not None and bg is not None:
        return bw == bg
    return False


def pyobject_like(ex, ty):
    t = strip_const(norm(ty))
    if not t.endswith('*') or t.endswith('**'):
        return False
    b = t[:-1].strip()
    return b.startswith('Py') or b == '' or b in ex.ctx.unit.types


def check_parse_type(ex, unit, want, v):
    """v: value passed as destination for a unit writing 'want'"""
    if want == 'int' and v.addr is not None and strip_const(norm(ex.lvtype(v.addr))) in ex.ctx.enums:
        ex.oblige('format', True, '')
        return
    ty = v.ty
    if v.addr is not None:
        t = ex.lvtype(v.addr)
    else:
        t = ty[:-1].strip() if ty.endswith('*') else None
        if t is None:
            ex.oblige('format', False, 'unit "%s" gets %s (type %s), which is not a pointer' % (unit, v.text, ty or '?'))
            return
    if t == '':
        ok = None      # type of a C++ member: unknown here
    elif want == 'PyObject*':
        ok = pyobject_like(ex, t)
    elif want == 'int' and strip_const(norm(t)) in ex.ctx.enums:
        ok = True      # enumerations are int sized on this platform
    else:
        ok = same_width(want, t) or (want == 'char const*' and strip_const(t).replace(' ', '') == 'char*')
        if want in ('float', 'double', 'wchar_t*'):
            ok = strip_const(t).replace(' ', '') == want
    if ok is None:
        return
    ex.oblige('format', ok, 'unit "%s" writes a %s through %s, which points to %s' % (unit, want, v.text, t))


def parse_tuple(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    kw = name.startswith('PyArg_ParseTupleAndKeywords')
    fi = 2 if kw else 1
    e = _call(ex, n, name, vs)
    fmt = fmt_of(vs[fi]) if len(vs) > fi else None
    v = ex.fresh(name, 'int', origin=('api', True))
    e.result = v
    e.fmt = fmt
    if fmt is None:
        ex.oblige('format', False, 'argument-parsing call without a literal format')
        return v
    us = units(fmt, True)
    if us is None:
        ex.oblige('format', False, 'format "%s" is not understood by PyArg_Parse' % fmt)
        return v
    rest = vs[fi + (2 if kw else 1):]
    restn = args[fi + (2 if kw else 1):]
    # keywords
    real = [u for u in us if u[0] not in '(|)']
    if kw:
        kws = None
        k = vs[3]
        if k.origin and k.origin[0] == 'init':
            kws = [x.lit for x in k.origin[1]]
        e.keywords = kws
        if kws is not None:
            ex.oblige('format', bool(kws) and kws[-1] == 0 and len(kws) - 1 == len(real),
                      lambda: '%d argument units but %d keywords (%r) in "%s"' % (len(real), len(kws) - 1, kws, fmt))
    e.items = []
    j = 0
    for (u, opt) in us:
        if u in '(|)':
            continue
        need = 2 if u in ('O!', 'O&', 's#', 'z#', 'y#', 'u#', 'et') else 1
        got = rest[j:j + need]
        if len(got) < need:
            ex.oblige('format', False, 'format "%s": unit "%s" has no destination' % (fmt, u))
            break
        j += need
        e.items.append((u, opt, got))
        if u == 'O!':
            ex.oblige('format', 'Type' in got[0].text or 'PyTypeObject' in got[0].ty, lambda: 'unit "O!" gets %s instead of a type object' % got[0].text)
            check_parse_type(ex, u, 'PyObject*', got[1])
        elif u == 'et':
            ex.oblige('format', isinstance(got[0].lit, str) or got[0].text == 'NULL' or 'char' in got[0].ty, lambda: 'unit "et" gets %s instead of an encoding' % got[0].text)
            check_parse_type(ex, u, 'char const*', got[1])
        elif u == 'O&':
            ex.oblige('format', got[0].addr is None and not got[0].text.startswith('"'), lambda: 'unit "O&" gets %s instead of a converter' % got[0].text)
        else:
            for t, g in zip(PARSE[u], got):
                check_parse_type(ex, u, t, g)
    ex.oblige('format', j == len(rest), lambda: 'format "%s" leaves %d argument(s) unused: %s' % (fmt, len(rest) - j, ', '.join(x.text for x in rest[j:])))
    ok = ex.truth(v)
    e.ok = ok
    if not ok:
        return v
    for (u, opt, got) in e.items:
        given = True
        if opt:
            given = ex.choose(2) == 0
        e.__dict__.setdefault('given', []).append(given)
        e.__dict__.setdefault('parsed', []).append([])
        dests = got[1:] if u in ('O!', 'O&', 'et') else got
        for di, g in enumerate(dests):
            if not given:
                continue
            if g.addr is not None:
                ty = ex.lvtype(g.addr)
            else:
                ty = ''
            text = g.text.lstrip('&')
            if u in PARSE_RANGE or u in PARSE_MASK:
                ex.nid += 1
                pz = z3.Int('py_%s#%d' % (re.sub(r'\W+', '_', text)[:20], ex.nid))
                if u in PARSE_RANGE:
                    lo, hi = irange(*PARSE_RANGE[u])
                    ex.assume(z3.And(pz >= lo, pz <= hi))
                    z = pz
                else:
                    b = PARSE_MASK[u]
                    z = pz % (1 << b[0])
                    if u in ('I', 'k', 'K', 'H', 'B'):
                        pass
                nv = ex.fresh(text, PARSE[u][0], z, origin=('parsed', u, pz))
            else:
                nv = ex.fresh(text, ty or (PARSE[u][0] if u in PARSE else ''), origin=('parsed', u, None))
                if u in ('O', 'O!', 's', 'U', 'S', 's#', 'et') and di == 0:
                    ex.facts[nv.id] = True
                if u == 's#' and di == 1 or u == 'd' or u == 'f':
                    nv.origin = ('parsed', u + str(di), None)
            if g.addr is not None:
                ex.store(g.addr, nv)
            else:
                ex.store(('deref', g), nv)
            e.__dict__.setdefault('values', []).append((u, g, nv))
            e.parsed[-1].append(nv)
    return v


BUILD_PROMOTE = {'b', 'B', 'h', 'H', 'i', 'c', 'C'}


def check_build_type(ex, unit, want, v):
    ty = strip_const(norm(v.ty)) if v.ty else ''
    if want == 'PyObject*':
        if ty == '':
            return
        ok = pyobject_like(ex, ty)
        ex.oblige('format', ok, 'unit "%s" takes a Python object but gets %s of type %s' % (unit, v.text, ty))
        return
    if ty == '':
        return
    ty = ty.rstrip('&').strip()
    bt = base_int(ty)
    bw = base_int(want)
    if want in ('float', 'double'):
        ok = ty in ('float', 'double')
    elif want == 'char const*':
        ok = ty.replace(' ', '') == 'char*'
    elif want == 'wchar_t*':
        ok = ty.replace(' ', '') == 'wchar_t*'
    elif bw is not None:
        if bt is None:
            ok = ty not in ('float', 'double', 'char*') and not ty.endswith('*')
        elif unit in BUILD_PROMOTE:
            # variadic promotion: everything narrower than int arrives as an int
            lo, hi = irange(*bt)
            wlo, whi = irange(*bw) if unit not in ('i', 'C') else irange(32, True)
            if bt[0] < 32:
                ok = (unit == 'i' or unit == 'C' or (wlo <= lo and hi <= whi) or unit in 'bBhH') and True
                if unit == 'c':
                    ok = bt[0] == 8
            else:
                ok = bt == (32, True)      # all of them are read back as an int
        else:
            ok = bt[0] == bw[0] and (bt[1] == bw[1] or unit.endswith('#') or unit == 'n')
            if want == 'Py_ssize_t':
                ok = bt[0] == 64
    else:
        ok = True
    ex.oblige('format', ok, 'unit "%s" takes a %s but gets %s of type %s' % (unit, want, v.text, ty))


def build_value(ex, n, name, args):
    vs = ev_args(ex, args)
    ex.line = n.line or ex.line
    ex.need_gil(name)
    fi = {'Py_BuildValue': 0, 'PyObject_CallMethod': 2, 'PyObject_CallFunction': 1}[name]
    e = _call(ex, n, name, vs)
    v = ex.fresh(_show(n), 'PyObject*', origin=('api', True, name, vs))
    e.result = v
    e.heap = dict(ex.heap)
    fmt = fmt_of(vs[fi]) if len(vs) > fi else None
    e.fmt = fmt
    if len(vs) <= fi and name != 'Py_BuildValue':
        return v
    if fmt is None:
        ex.oblige('format', False, 'value-building call without a literal format')
        return v
    us = units(fmt, False)
    if us is None:
        ex.oblige('format', False, 'format "%s" is not understood by Py_BuildValue' % fmt)
        return v
    rest = vs[fi + 1:]
    e.items = []
    j = 0
    for (u, _) in us:
        if u in '()':
            continue
        need = 2 if u.endswith(('#', '&')) else 1
        got = rest[j:j + need]
        if len(got) < need:
            ex.oblige('format', False, 'format "%s": unit "%s" has no value' % (fmt, u))
            break
        j += need
        e.items.append((u, got))
        if not u.endswith('&'):
            for t, g in zip(BUILD[u], got):
                check_build_type(ex, u, t, g)
    ex.oblige('format', j == len(rest), lambda: 'format "%s" leaves %d value(s) unused: %s' % (fmt, len(rest) - j, ', '.join(x.text for x in rest[j:])))
    for (u, got) in e.items:
        if u == 'N':
            ex.own(got[0], -1)
    ex.own(v)
    if name == 'Py_BuildValue':
        v.truth0 = True     # allocation failure out of scope
    return v


H = {
    'PyGILState_Ensure': gil_ensure, 'PyGILState_Release': gil_release, 'PyEval_SaveThread': save_thread,
    'PyEval_RestoreThread': restore_thread, 'PyEval_ThreadsInitialized': threads_initialized,
    'PyArg_ParseTuple': parse_tuple, 'PyArg_ParseTupleAndKeywords': parse_tuple,
    'Py_BuildValue': build_value, 'PyObject_CallMethod': build_value, 'PyObject_CallFunction': build_value,
    'Py_INCREF': incref, 'Py_XINCREF': incref, 'Py_DECREF': decref, 'Py_XDECREF': decref, 'Py_CLEAR': decref,
    'Py_TYPE': py_type, 'Py_FatalError': fatal,
    'PyErr_SetString': seterr, 'PyErr_SetObject': seterr, 'PyErr_SetNone': seterr, 'PyErr_Format': seterr, 'PyErr_NoMemory': seterr,
    'PyErr_BadArgument': seterr,
    'PyErr_Clear': clrerr, 'PyErr_Print': clrerr, 'PyErr_Fetch': clrerr,
    'PyList_SET_ITEM': steal(2), 'PyTuple_SET_ITEM': steal(2), 'PyTuple_SetItem': steal(2), 'PyList_SetItem': steal(2),
    'PyModule_AddObject': steal(2),
    'PyErr_Occurred': borrowed,
}
for _n in '''PyObject_GetAttrString PyList_New PyTuple_New PyDict_New PyObject_CallObject PyObject_Call PyObject_Str
 PyObject_Repr PyString_FromString PyBytes_FromString PyUnicode_FromString PyUnicode_AsUTF8String PyLong_FromLong PyInt_FromLong
 PyLong_FromUnsignedLong PyLong_FromLongLong PyLong_FromUnsignedLongLong PyLong_FromSize_t PyInt_FromSize_t PyLong_FromSsize_t PyInt_FromSsize_t PyLong_FromDouble
 PyLong_FromVoidPtr PyFloat_FromDouble PyBool_FromLong PyObject_New PyObject_GC_New PyCObject_FromVoidPtr PyCapsule_New PyTuple_Pack
 PyImport_ImportModule PyErr_NewException PySequence_GetItem PyObject_GetIter PyIter_Next PyModule_Create PyType_GenericNew
 PyObject_GenericGetAttr PyObject_RichCompare PyImport_AddModule_new PyUnicode_FromFormat Py_InitModule3 PyUnicode_FromWideChar'''.split():
    H[_n] = newref
for _n in '''PyList_GET_ITEM PyList_GetItem PyTuple_GET_ITEM PyTuple_GetItem PyDict_GetItemString PyDict_GetItem PyImport_AddModule
 PyModule_GetDict PySequence_Fast_GET_ITEM PyType_GetDict'''.split():
    H[_n] = borrowed
for _n in '''PyErr_Warn PyList_Append PySequence_Contains PyObject_SetAttrString PyDict_SetItemString PyDict_SetItem PyType_Ready
 PyErr_WarnEx PyObject_IsTrue PyObject_IsInstance PyObject_IsSubclass'''.split():
    H[_n] = intfn
for _n in '''PyObject_TypeCheck PyList_Check PyTuple_Check PyString_Check PyInt_Check PyLong_Check PyFloat_Check PyUnicode_Check
 PyBytes_Check PyNumber_Check PySequence_Check PyCallable_Check PyErr_ExceptionMatches'''.split():
    H[_n] = predicate
