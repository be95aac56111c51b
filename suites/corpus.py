"""Generated corpus: pybindgen scripts built from specifications, run through the real
generator; every emitted function is read back and evaluated by minic, and linked to the
specification it was generated from through the emitted tables.

The text of the script is the reproduction of every failure."""
import io
import os
import re
import sys
import pickle
import random
import traceback
import multiprocessing

from minic.parser import Unit, ParseError, N
from minic.sym import Ctx, Exec, Unmodelled, show, V
from minic.ctypes_ import norm, strip_const, base_int, irange

I, O, IO = 1, 2, 3

PRELUDE = '''import pybindgen
from pybindgen import *
from pybindgen import settings, cppclass, utils
from pybindgen.typehandlers import base as typehandlers
from pybindgen.typehandlers.base import ReturnValue, Parameter, ForwardWrapperBase
from pybindgen.typehandlers import smart_ptr
from pybindgen.wrapper_registry import StdMapWrapperRegistry, NullWrapperRegistry
settings.deprecated_virtuals = False
'''


class P(object):
    """a parameter: C type, name, direction, further options (python source text per option)"""
    def __init__(self, ctype, name, d=None, default=None, **kw):
        self.ctype, self.name, self.d, self.default, self.kw = ctype, name, d, default, kw
        self.dir = d if d is not None else I

    def text(self):
        a = [repr(self.ctype), repr(self.name)]
        if self.d is not None:
            a.append('direction=%d' % self.d)
        if self.default is not None:
            a.append('default_value=%r' % self.default)
        for k, v in sorted(self.kw.items()):
            a.append('%s=%r' % (k, v))
        return 'param(%s)' % ', '.join(a)

    def rename(self, name):
        return P(self.ctype, name, self.d, self.default, **self.kw)

    def __repr__(self):
        return '%s %s [%s%s%s]' % (self.ctype, self.name, {1: 'in', 2: 'out', 3: 'inout'}[self.dir],
                                   ', default %s' % self.default if self.default is not None else '',
                                   ''.join(', %s=%s' % kv for kv in sorted(self.kw.items())))

    @property
    def cls(self):
        return class_of(self.ctype)

    @property
    def form(self):
        return form_of(self.ctype)


class R(object):
    def __init__(self, ctype, **kw):
        self.ctype, self.kw = ctype, kw

    def text(self):
        a = [repr(self.ctype)]
        for k, v in sorted(self.kw.items()):
            a.append('%s=%r' % (k, v))
        return 'retval(%s)' % ', '.join(a)

    @property
    def void(self):
        return self.ctype == 'void'

    def __repr__(self):
        return '%s%s' % (self.ctype, ''.join(' [%s=%s]' % kv for kv in sorted(self.kw.items())))

    @property
    def cls(self):
        return class_of(self.ctype)

    @property
    def form(self):
        return form_of(self.ctype)


def form_of(ct):
    t = norm(ct)
    if 'shared_ptr<' in t:
        return 'shared'
    t = strip_const(t)
    if t.endswith('&'):
        return 'ref'
    if t.endswith('*'):
        return 'ptr'
    return 'val'


CLASSES = set('K V A S R W ns::N Sub B0 T1 T2 Own'.split())


def class_of(ct):
    t = strip_const(norm(ct))
    m = re.match(r'(?:boost|std)::shared_ptr<(.*)>$', t)
    if m:
        t = m.group(1).strip()
    t = t.rstrip('*&').strip()
    if t.startswith('::'):
        t = t[2:]
    return t if t in CLASSES or re.match(r'(\w+::)*VC\d', t) or t.startswith('X') and t[1:].isdigit() else None


class Fn(object):
    """a declared function / method / constructor"""
    def __init__(self, key, kind, name, ret, params, cls=None, py=None, throws=(), unblock=None, wards=(), static=False,
                 virtual=False, pure=False, visibility='public', const=False, deprecated=None, extra=None, template=None):
        self.key, self.kind, self.name, self.ret, self.params, self.cls = key, kind, name, ret, list(params), cls
        self.py = py
        self.throws, self.unblock, self.wards = list(throws), unblock, list(wards)
        self.static, self.virtual, self.pure, self.visibility, self.const = static, virtual, pure, visibility, const
        self.deprecated = deprecated
        self.extra = extra or {}
        self.template = template
        self.pyname = py or name

    def outs(self):
        return [p for p in self.params if p.dir & O]

    def text(self, var):
        a = []
        if self.kind == 'ctor':
            head = '%s.add_constructor' % var
        elif self.kind == 'func':
            head = '%s.add_function' % var
        else:
            head = '%s.add_method' % var
        if self.kind != 'ctor':
            a += [repr(self.name), self.ret.text() if self.ret is not None else 'None']
        a.append('[%s]' % ', '.join(p.text() for p in self.params))
        if self.py:
            a.append('custom_name=%r' % self.py)
        if self.throws:
            a.append('throw=[%s]' % ', '.join(self.throws))
        if self.unblock is not None:
            a.append('unblock_threads=%r' % self.unblock)
        if self.static:
            a.append('is_static=True')
        if self.virtual:
            a.append('is_virtual=True')
        if self.pure:
            a.append('is_pure_virtual=True')
        if self.const:
            a.append('is_const=True')
        if self.visibility != 'public':
            a.append('visibility=%r' % self.visibility)
        if self.deprecated:
            a.append('deprecated=%r' % self.deprecated)
        if self.template:
            a.append('template_parameters=%r' % self.template)
        for k, v in sorted(self.extra.items()):
            a.append('%s=%s' % (k, v))
        return '%s(%s)' % (head, ', '.join(a))

    def __repr__(self):
        return '%s %s%s(%s)' % (self.ret, (self.cls + '::') if self.cls else '', self.name, ', '.join(map(repr, self.params)))


class Attr(object):
    def __init__(self, cls, name, ctype, static=False, const=False, getter=None, setter=None, custom=False, py=None, kw=None):
        self.cls, self.name, self.ctype, self.static, self.const, self.getter, self.setter, self.custom, self.py = cls, name, ctype, static, const, getter, setter, custom, py
        self.kw = kw or {}
        self.gt, self.st = [], []

    @property
    def pyname(self):
        return self.py or self.name


class Cls(object):
    def __init__(self, name, var, py=None, parents=(), subclassable=False, abstract=False, ns=None, mem=None, container=False,
                 singleton=False, outer=None):
        self.name, self.var, self.parents, self.subclassable, self.abstract, self.ns, self.mem = name, var, list(parents), subclassable, abstract, ns, mem
        self.py = py
        self.full = ('%s::%s' % (ns, name)) if ns else name
        self.fns, self.attrs, self.ctors = [], [], []
        self.copyable = False
        self.trivial = False
        self.singleton = singleton

    @property
    def pyname(self):
        return self.py or self.name.split('::')[-1]


class Mod(object):
    """one module: script text + specifications"""
    def __init__(self, name='m', registry=None, narrowing=False):
        self.name = name
        self.lines = [PRELUDE.rstrip()]
        self.fns, self.classes, self.excs, self.enums, self.attrs, self.containers = [], [], [], [], [], []
        self.byname = {}
        self.n = 0
        self.registry = registry
        self.lines.append("mod = Module(%r)" % name)
        if registry:
            self.lines[-1:] = ["settings.wrapper_registry = %s" % registry, "mod = Module(%r)" % name]
        self.lines.append("mod.add_include('\"h.h\"')")
        self.extra_known = set(['e0', 'e1', 'E', 'ns'])

    def line(self, s):
        self.lines.append(s)

    def exc(self, name, **kw):
        self.lines.append("%s = mod.add_exception(%r%s)" % (name, kw.pop('cxx', name), ''.join(', %s=%r' % x for x in kw.items())))
        self.excs.append((name, kw))
        return name

    def cls(self, name, var=None, opts='', **kw):
        c = Cls(name, var or name, **kw)
        owner = 'mod'
        if c.ns:
            if c.ns not in self.byname:
                self.lines.append("%s = mod.add_cpp_namespace(%r)" % (c.ns, c.ns))
                self.byname[c.ns] = True
            owner = c.ns
        a = [repr(name)]
        if c.parents:
            a.append('parent=%s' % ('[%s]' % ', '.join(p.var for p in c.parents) if len(c.parents) > 1 else c.parents[0].var))
        if c.subclassable:
            a.append('allow_subclassing=True')
        if c.py:
            a.append('custom_name=%r' % c.py)
        if c.mem:
            a.append('memory_policy=%s' % c.mem)
        if opts:
            a.append(opts)
        self.lines.append('%s = %s.add_class(%s)' % (c.var, owner, ', '.join(a)))
        self.classes.append(c)
        self.byname[c.full] = c
        return c

    def ctor(self, c, params=(), copy=False, **kw):
        f = Fn('%s.ctor%d' % (c.full, len(c.ctors)), 'ctor', c.name, None, params, cls=c.full, **kw)
        if copy:
            self.lines.append('%s.add_copy_constructor()' % c.var)
            f.params = [P('%s const &' % c.full, 'ctor_arg')]
            c.copyable = True
        else:
            self._add(f, c.var)
        f.copy = copy
        if not f.params:
            c.trivial = True
        c.ctors.append(f)
        return f

    def method(self, c, name, ret, params, **kw):
        f = Fn('%s.%s.%d' % (c.full, name, len(c.fns)), 'method', name, ret, params, cls=c.full, **kw)
        self._add(f, c.var)
        c.fns.append(f)
        return f

    def asctor(self, c, name, params=(), **kw):
        """a function wrapped as constructor: returns a new object, owned by the wrapper"""
        f = Fn('%s.ctor%d' % (c.full, len(c.ctors)), 'ctor', c.name, None, params, cls=c.full, **kw)
        f.asctor, f.copy = name, False
        self.lines.append("%s.add_function_as_constructor(%r, retval('%s *', caller_owns_return=True), [%s]%s)" % (
            c.var, name, c.full, ', '.join(p.text() for p in f.params), '' if f.unblock is None else ', unblock_threads=%r' % f.unblock))
        self.extra_known.add(name)
        c.ctors.append(f)
        return f

    def func(self, name, ret, params, ns=None, **kw):
        f = Fn('%s.%d' % (name, len(self.fns)), 'func', name, ret, params, cls=None, **kw)
        f.ns = ns
        self._add(f, ns or 'mod')
        self.fns.append(f)
        return f

    def _add(self, f, var):
        if f.wards:
            self.lines.append('_f = ' + f.text(var))
            for (c, w, post) in f.wards:
                self.lines.append('_f.add_custodian_and_ward(%d, %d%s)' % (c, w, '' if post is None else ', postcall=%r' % post))
        else:
            self.lines.append(f.text(var))

    def attr(self, c, name, ctype, static=False, const=False, getter=None, setter=None, custom=False, py=None, value=None, gt=(), st=(), **kw):
        a = Attr(c.full, name, ctype, static, const, getter, setter, custom, py, kw)
        a.gt, a.st = list(gt), list(st)
        extra = (', getter_template_parameters=%r' % a.gt if gt else '') + (', setter_template_parameters=%r' % a.st if st else '')
        v = value or R(ctype, **kw).text()
        if static:
            self.lines.append('%s.add_static_attribute(%r, %s%s)' % (c.var, name, v, ', is_const=True' if const else ''))
        elif custom:
            self.lines.append('%s.add_custom_instance_attribute(%r, %s, getter=%r%s%s%s%s)' % (
                c.var, name, v, getter, ', is_const=True' if const else '', ', setter=%r' % setter if setter else '',
                ', custom_name=%r' % py if py else '', extra))
        else:
            self.lines.append('%s.add_instance_attribute(%r, %s%s%s%s%s)' % (
                c.var, name, v, ', is_const=True' if const else '', ', getter=%r' % getter if getter else '',
                ', setter=%r' % setter if setter else '', ', custom_name=%r' % py if py else ''))
        c.attrs.append(a)
        self.attrs.append(a)
        return a

    def enum(self, name, values):
        self.lines.append('mod.add_enum(%r, %r)' % (name, values))
        self.enums.append((name, values))

    def container(self, name, vt, kind, var=None):
        self.lines.append('%smod.add_container(%r, %s, %r)' % (var + ' = ' if var else '', name, vt, kind))
        self.containers.append((name, vt, kind))

    def text(self):
        return '\n'.join(self.lines) + '\nimport sys\nmod.generate(FileCodeSink(sys.stdout))\n'

    def all_fns(self):
        for f in self.fns:
            yield f
        for c in self.classes:
            for f in c.fns:
                yield f
            for f in c.ctors:
                yield f

    # what the emitted code may mention
    def known(self):
        k = set(self.extra_known)
        for f in self.all_fns():
            k.add(f.name)
        for c in self.classes:
            k.add(c.full)
            k.add(c.name)
        for (e, kw) in self.excs:
            k.add(e)
        for (e, vs) in self.enums:
            k.add(e)
            k.update(vs)
        for a in self.attrs:
            k.add(a.name)
        for (c, vt, kd) in self.containers:
            k.add(c)
        k.update(['what', 'exc', 'boost', 'std', 'Glib', 'string', 'ustring', 'shared_ptr', 'vector', 'map', 'list', 'set', 'runtime_error'])
        return k

    def sigs(self):
        s = {}
        for f in self.all_fns():
            ds = []
            for p in f.params:
                t = norm(p.ctype)
                ds.append({1: 'I', 2: 'O', 3: 'IO'}[p.dir] if t.endswith('&') else None)
            if any(ds):
                for nm in (f.asctor,) if getattr(f, 'asctor', None) else (f.name, (f.cls or getattr(f, 'ns', None) or '') + '::' + f.name, f.name + '__parent_caller'):
                    s[nm] = ds
        return s


class Generated(object):
    """the emitted module, read back"""
    def __init__(self, mod, text, skipped):
        self.mod, self.text, self.skipped = mod, text, skipped
        self.unit = Unit(text)
        self.ctx = Ctx(self.unit, known=mod.known(), sigs=mod.sigs(), member_types=dict((a.name, norm(a.ctype)) for a in mod.attrs), func_types=mod_types(mod), enums=[e for (e, vs) in mod.enums])
        self.execs = {}
        self.tables = {}
        self.getsets = {}
        self.types = {}
        self.read_tables()

    def read_tables(self):
        for v in self.unit.vars:
            t = norm(v.type)
            if v.init is None or v.init.op != 'init':
                continue
            if 'PyMethodDef' in t:
                rows = []
                for r in v.init.a[0]:
                    if r.op == 'init':
                        rows.append([r2 for r2 in r.a[0]])
                self.tables[v.name] = rows
            elif 'PyGetSetDef' in t:
                rows = []
                for r in v.init.a[0]:
                    if r.op == 'init':
                        rows.append([r2 for r2 in r.a[0]])
                self.getsets[v.name] = rows
            elif 'PyTypeObject' in t:
                self.types[v.name] = [show(x) for x in v.init.a[0]]

    def type_rows(self):
        """tp_name -> (type var name, slots)"""
        out = {}
        for n, rows in self.types.items():
            nm = rows[1]
            m = re.search(r'"([^"]*)"', nm)
            if m:
                out[m.group(1)] = (n, rows)
        return out

    def slot(self, rows, cast):
        for x in rows:
            m = re.match(r'\(\s*%s\s*\)\s*(.*)$' % re.escape(cast), x)
            if m:
                return m.group(1).strip()
        return None

    def methods(self, table):
        """name -> (C function, flags text)"""
        out = []
        for r in self.tables.get(table, []):
            if len(r) < 3:
                continue
            nm = re.search(r'"((?:[^"\\]|\\.)*)"', show(r[0]))
            fn = re.sub(r'^\(.*?\)\s*', '', show(r[1]))
            out.append((nm.group(1) if nm else None, fn.strip(), show(r[2])))
        return out

    def exec(self, fname, gil='held'):
        k = (fname, gil)
        if k not in self.execs:
            f = self.unit.func(fname)
            if f is None:
                return None
            self.execs[k] = Exec(self.ctx, f, gil).run()
        return self.execs[k]


def mod_types(mod):
    """declared result types of the user functions (unqualified names are unique in the corpora)"""
    out = {}
    for f in mod.all_fns():
        if getattr(f, 'asctor', None):
            out[f.asctor] = '%s *' % f.cls
        if f.ret is not None:
            t = norm(f.ret.ctype).rstrip('&').strip()
            out[f.name] = t
            if f.cls:
                out['%s::%s' % (f.cls, f.name)] = t
    return out


class Recorder(object):
    def __init__(self):
        self.skipped = []

    def handle_error(self, wrapper, exception, tb):
        self.skipped.append((describe_wrapper(wrapper), type(exception).__name__, str(exception)))
        return True


def describe_wrapper(w):
    for a in ('mangled_name', 'method_name', 'function_name', 'attribute_name', 'name'):
        if getattr(w, a, None):
            return '%s %s' % (type(w).__name__, getattr(w, a))
    return type(w).__name__


def generate(mod, handler=True):
    """run the script in this process (call in a forked child)"""
    from pybindgen import settings
    from pybindgen.typehandlers.codesink import FileCodeSink
    rec = Recorder()
    if handler:
        h = type('H', (settings.ErrorHandler,), {'handle_error': lambda self, w, e, t: rec.handle_error(w, e, t)})()
        settings.error_handler = h
    ns = {'__name__': 'script'}
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        exec(compile('\n'.join(mod.lines) + '\n', 'script', 'exec'), ns)
        out = io.StringIO()
        ns['mod'].generate(FileCodeSink(out))
    rec.ns = ns
    return out.getvalue(), rec


# ---------------------------------------------------------------- provenance

def origin_kids(v):
    o = v.origin
    if not o:
        return []
    k = o[0]
    if k in ('field', 'index', 'deref', 'dyn', 'un'):
        return [o[1]]
    if k == 'construct' or k == 'init':
        return list(o[1])
    if k in ('new', 'newarray'):
        return list(o[2])
    if k == 'api' and len(o) > 3:
        return list(o[3])
    if k == 'pred':
        return list(o[2])
    if k == 'bin':
        return list(o[1:])
    if k == 'bits':
        return list(o[2:])
    if k == 'converted':
        return list(o[1].args[:1])
    return []


class Prov(object):
    """what a value is made of, on one path; stops at the calls in 'targets'"""
    def __init__(self, path, targets=()):
        self.p = path
        self.targets = set(id(e) for e in targets)

    def walk(self, v, heap=None, seen=None, out=None):
        heap = heap if heap is not None else self.p.heap
        seen = set() if seen is None else seen
        out = set() if out is None else out
        if v is None or v.id in seen and v.id != 0:
            return out
        seen.add(v.id)
        o = v.origin
        if o and o[0] == 'call':
            e = o[2]
            if id(e) in self.targets:
                out.add(('ret',))
                return out
            for a in list(e.args) + ([e.base] if e.base is not None else []):
                self.walk(a, heap, seen, out)
        elif o and o[0] == 'out':
            e = o[1]
            if id(e) in self.targets:
                out.add(('out', o[2]))
                return out
            for a in list(e.args) + ([e.base] if e.base is not None else []):
                self.walk(a, heap, seen, out)
        elif o and o[0] == 'parsed':
            out.add(('parsed', v.id))
        elif o and o[0] == 'param':
            out.add(('param', o[1]))
        elif o and o[0] in ('new', 'newarray'):
            out.add(('obj', v.id))
        elif o and o[0] == 'global':
            pass
        if o and o[0] == 'api' and len(o) > 2 and o[2] in ('PyObject_New', 'PyObject_GC_New'):
            out.add(('obj', v.id))
            for k, x in heap.items():
                if isinstance(k, tuple) and len(k) == 2 and k[0] == v.id and isinstance(x, V) and k[1] == 'obj':
                    self.walk(x, heap, seen, out)
        for x in origin_kids(v):
            self.walk(x, heap, seen, out)
        if v.addr is not None:
            lv = v.addr
            if lv[0] == 'var':
                self.walk(lv[1].val, heap, seen, out)
            elif lv[0] in ('field', 'deref', 'index', 'tmp'):
                self.walk(lv[1], heap, seen, out)
        return out


# ---------------------------------------------------------------- linking

class W(object):
    """one emitted wrapper linked to its specification"""
    def __init__(self, spec, func, role, ex):
        self.spec, self.func, self.role, self.ex = spec, func, role, ex


def overload_slots(g, fn):
    """slots of a dispatcher, in the order they are tried; None if fn is not a dispatcher"""
    f = g.unit.func(fn)
    if f is None:
        return None
    ex = g.exec(fn)
    best = []
    for p in ex.paths:
        s = [e.name for e in p.events if e.kind == 'call' and hasattr(e, 'refused')]
        if len(s) > len(best):
            best = s
    return best or None


def is_target(spec, e):
    """is this call event the call of the wrapped C++ function"""
    if e.kind != 'call' or e.api:
        return False
    n = re.sub(r'<.*>$', '', e.name)
    want = spec.name
    if spec.template:
        want = spec.name
    if spec.kind == 'func':
        full = (spec.ns + '::' + want) if getattr(spec, 'ns', None) else want
        return n in (full, '::' + full)
    last = n.split('::')[-1]
    return last == want or last == want + '__parent_caller'


def targets(spec, path):
    if getattr(spec, 'asctor', None):
        return [e for e in path.events if e.kind == 'call' and not e.api and e.name in (spec.asctor, '::' + spec.asctor)]
    if spec.kind == 'ctor':
        return [e for e in path.events if e.kind == 'new']
    return [e for e in path.events if e.kind == 'call' and is_target(spec, e)]


def link(g, want=None):
    """all wrappers of the module"""
    mod = g.mod
    ws = []
    missing = []

    def group(fns, lookup):
        names = []
        for f in fns:
            if f.pyname not in names:
                names.append(f.pyname)
        for nm in names:
            fs = [f for f in fns if f.pyname == nm]
            c = lookup(nm)
            if c is None:
                for f in fs:
                    missing.append(f)
                continue
            slots = overload_slots(g, c)
            if slots is None:
                fl = [c]
            else:
                fl = slots
            # which overload was skipped is decided by the keyword list / parameter count
            yield nm, fs, c, fl
    by = dict((n, f) for (n, f, fl) in g.methods(mod.name + '_functions'))
    for nm, fs, c, fl in group([f for f in mod.fns if not getattr(f, 'ns', None)], by.get):
        assign(g, ws, fs, fl, 'func', missing)
    nss = set(getattr(f, 'ns', None) for f in mod.fns) - set([None])
    for ns in sorted(nss):
        tb = None
        for t in g.tables:
            if t.endswith('_functions') and t != mod.name + '_functions' and re.search(r'(^|_)%s(_|$)' % ns, t):
                tb = t
        by = dict((n, f) for (n, f, fl) in g.methods(tb)) if tb else {}
        for nm, fs, c, fl in group([f for f in mod.fns if getattr(f, 'ns', None) == ns], by.get):
            assign(g, ws, fs, fl, 'func', missing)
    types = g.type_rows()
    for cls in mod.classes:
        tn = '%s.%s%s' % (mod.name, (cls.ns + '.') if cls.ns else '', cls.pyname)
        if tn not in types:
            missing += cls.fns + cls.ctors
            continue
        tvar, rows = types[tn]
        cls.tvar, cls.rows = tvar, rows
        cls.struct = re.sub(r'_Type$', '', tvar)
        mt = g.slot(rows, 'PyMethodDef*') or ''
        by = dict((n, f) for (n, f, fl) in g.methods(mt))
        pub = [f for f in cls.fns if f.visibility != 'private' and not f.name.startswith('operator')]
        for nm, fs, c, fl in group(pub, by.get):
            assign(g, ws, fs, fl, 'method', missing)
        # methods of the bases wrapped again for this class (several bases)
        rest = [n for n in by if n not in set(f.pyname for f in pub) and n is not None]
        inh = [f for f in ancestors_fns(cls) if f.pyname in rest and f.visibility != 'private']
        for nm, fs, c, fl in group(inh, by.get):
            if len(fs) == len(fl):
                assign(g, ws, fs, fl, 'method', missing)
        tpinit = g.slot(rows, 'initproc')
        cls.tpinit = tpinit
        if cls.ctors and tpinit and tpinit != 'NULL':
            slots = overload_slots(g, tpinit)
            if not slots and refuses(g, tpinit):
                missing += cls.ctors
            else:
                assign(g, ws, cls.ctors, slots or [tpinit], 'ctor', missing)
        # virtual overrides
        helper = helper_name(g, cls)
        cls.helper = helper
        if helper:
            for f in g.unit.funcs:
                m = re.match(r'%s::([\w~]+)$' % re.escape(helper), f.name)
                if m and not m.group(1).startswith('_wrap') and 'static' not in (f.ret or ''):
                    cands = [s for s in virtuals(mod, cls) if s.name == m.group(1) and len(s.params) == len([x for x in f.params])]
                    cands = [s for s in cands if all(norm(a.ctype).replace('::', '') == norm(b[0]).replace('::', '') or True for a, b in zip(s.params, f.params))]
                    if len(cands) > 1:
                        c2 = [s for s in cands if all(sametype(a.ctype, b[0]) for a, b in zip(s.params, f.params))]
                        cands = c2 or cands
                    if cands:
                        try:
                            ex = g.exec_func(f, 'unheld')
                        except AttributeError:
                            ex = Exec(g.ctx, f, 'unheld').run()
                        w = W(cands[0], f, 'virtual', ex)
                        w.cls = cls
                        ws.append(w)
    return ws, missing


def ancestors_fns(cls):
    out, seen, todo = [], set(), list(cls.parents)
    while todo:
        c = todo.pop(0)
        if id(c) in seen:
            continue
        seen.add(id(c))
        out += c.fns
        todo += c.parents
    return out


def refuses(g, fname):
    """the function only raises TypeError, whatever it is called with"""
    ex = g.exec(fname)
    if ex is None:
        return False
    for p in ex.paths:
        names = [e.name for e in p.events if e.kind == 'call']
        if any(e.kind == 'new' for e in p.events) or any(n.startswith('PyArg_') for n in names):
            return False
        if not any(e.kind == 'call' and e.name in ('PyErr_SetString', 'PyErr_Format') and 'PyExc_TypeError' in e.argtext[0] for e in p.events):
            return False
    return True


def sametype(a, b):
    f = lambda t: strip_const(norm(t)).replace(' ', '')
    return f(a) == f(b)


def virtuals(mod, cls):
    out, seen, todo = [], set(), [cls]
    while todo:
        c = todo.pop(0)
        for f in c.fns:
            if f.virtual or f.pure:
                k = (f.name, tuple(norm(p.ctype) for p in f.params), f.const)
                if k not in seen:
                    seen.add(k)
                    out.append(f)
        todo += c.parents
    return out


def helper_name(g, cls):
    h = getattr(cls, 'struct', '') + '__PythonHelper'
    return h if h in g.unit.types or any(c[0] == h for c in g.unit.classes) else None


def assign(g, ws, fs, fl, role, missing):
    """pair specifications with emitted functions (overloads in declaration order)"""
    if len(fs) == len(fl):
        pairs = list(zip(fs, fl))
    else:
        # some overload could not be generated
        pairs = []
        rest = list(fl)
        for f in fs:
            if not rest:
                missing.append(f)
                continue
            ok = kwlist(g, rest[0])
            exp = [p.name for p in f.params if p.dir & I]
            if ok is None or ok == exp or len(fs) == 1:
                pairs.append((f, rest.pop(0)))
            else:
                missing.append(f)
    for f, c in pairs:
        fn = g.unit.func(c)
        if fn is None:
            missing.append(f)
            continue
        ws.append(W(f, fn, role, g.exec(c)))


def kwlist(g, fname):
    ex = g.exec(fname)
    if ex is None:
        return None
    for p in ex.paths:
        for e in p.events:
            if e.kind == 'call' and e.name.startswith('PyArg_ParseTupleAndKeywords'):
                k = getattr(e, 'keywords', None)
                return k[:-1] if k else None
    return []


# ---------------------------------------------------------------- running

CHECKS = []      # inherited by the forked children


def _child(job):
    mod, checks = job[0], CHECKS
    res = dict(fails=[], stats={}, samples=[], cases=0, keys=set(), error=None, skipped=[])
    try:
        try:
            text, rec = generate(mod, getattr(mod, 'handler', True))
        except Exception as ex:
            tb = traceback.extract_tb(sys.exc_info()[2])
            res['fails'].append(('generation:%s' % type(ex).__name__, 'generation of a valid module failed: %s' % ex,
                                 traceback.format_exc(), mod.text(), 'generate'))
            return res
        res['skipped'] = rec.skipped
        g = Generated(mod, text, rec.skipped)
        g.ns = rec.ns
        ws, missing = link(g)
        g.missing = missing
        c = Checker(mod, g, res)
        c.count('wrappers skipped by the generator (refused types)', len(rec.skipped))
        for fn in checks:
            fn(c, g, ws)
    except (ParseError, Unmodelled) as ex:
        res['error'] = 'unreadable emitted code: %s: %s' % (type(ex).__name__, ex)
        res['trace'] = traceback.format_exc()
        res['script'] = mod.text()
    except Exception:
        res['error'] = traceback.format_exc()
        res['script'] = mod.text()
    return res


class Checker(object):
    def __init__(self, mod, g, res):
        self.mod, self.g, self.res = mod, g, res

    def count(self, k, n=1):
        self.res['stats'][k] = self.res['stats'].get(k, 0) + n

    def case(self, key, sample=None):
        self.res['cases'] += 1
        self.res['keys'].add(key)
        if sample is not None and len(self.res['samples']) < 2:
            self.res['samples'].append(sample)

    def fail(self, key, what, detail='', code=None):
        src = ''
        if code is not None:
            src = self.source(code)
        self.res['fails'].append((key, what, detail, self.mod.text() + ('\n# emitted:\n' + src if src else ''), None))

    def source(self, func):
        lines = self.g.text.split('\n')
        ln = getattr(func, 'line', 1)
        return '\n'.join('# ' + x for x in lines[max(0, ln - 3):ln + 60])


def run_mods(S, mods, checks, par=8):
    """generate, execute and check every module; failures, counts and samples go to the suite"""
    ctx = multiprocessing.get_context('fork')
    import pybindgen  # imported before forking
    global CHECKS
    CHECKS = checks
    jobs = [(m,) for m in mods]
    broken = []
    with ctx.Pool(par, maxtasksperchild=1) as pool:
        for job, r in zip(jobs, pool.imap(_child, jobs, chunksize=1)):
            if r['error']:
                broken.append(r)
            for (key, what, detail, repro, _) in r['fails']:
                S.fail(key, what, detail, repro)
            for k, n in r['stats'].items():
                S.count(k, n)
            S.n += r['cases']
            for k in r['keys']:
                S.nontrivial.add(hash(k))
            for s in r['samples']:
                if len(S.samples) < 6:
                    S.samples.append(str(s))
    for r in broken[:3]:
        S.fail('unreadable:' + r['error'].strip().split('\n')[-1][:120], 'the emitted code could not be read back or evaluated',
               r.get('trace', r['error']), r.get('script', ''))
    S.count('modules generated', len(mods))
    return broken
