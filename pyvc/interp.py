"""Symbolic evaluator for the Python subset pybindgen is written in.

It evaluates the AST of the functions as they stand in /repo; nothing is
rewritten by hand.  What it leaves out is listed in DESIGN.md (trusted base)."""
import ast
import builtins
import functools
import operator
import os
import sys
import types
import warnings
import logging
import traceback
import z3
from .values import *
from .engine import LoopInfo, LoopSpec, Cand

REPO = os.environ.get('PYVC_REPO', '/repo')


class _Return(EngineSignal):
    def __init__(self, value):
        self.value = value


class _Break(EngineSignal):
    pass


class _Continue(EngineSignal):
    pass


# ------------------------------------------------------------------ sources
_files = {}


class SourceFile(object):
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.by_line = {}
        self.lambdas = {}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = n.lineno
                if n.decorator_list:
                    ln = min(ln, n.decorator_list[0].lineno)
                self.by_line[ln, n.name] = n
            elif isinstance(n, ast.Lambda):
                self.lambdas.setdefault(n.lineno, []).append(n)


def source_file(path):
    path = os.path.realpath(path)
    if path not in _files:
        _files[path] = SourceFile(path)
    return _files[path]


def in_repo(path):
    return os.path.realpath(path).startswith(REPO + os.sep)


def find_def(fn):
    code = fn.__code__
    if not in_repo(code.co_filename):
        return None
    sf = source_file(code.co_filename)
    if code.co_name == '<lambda>':
        ls = sf.lambdas.get(code.co_firstlineno, [])
        return ls[0] if len(ls) == 1 else None
    return sf.by_line.get((code.co_firstlineno, code.co_name))


_locals_cache = {}


def local_names(node):
    if node in _locals_cache:
        return _locals_cache[node]
    names, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    gen = [False]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own scope, except walrus (unused here)
            for c in ast.iter_child_nodes(n):
                walk_comp(c)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    def walk_comp(n):
        if isinstance(n, ast.NamedExpr):
            names.add(n.target.id)
        for c in ast.iter_child_nodes(n):
            walk_comp(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    r = (frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl), gen[0])
    _locals_cache[node] = r
    return r


class Frame(object):
    def __init__(self, node, globals_, qualname, parent=None, closure=None, cls=None):
        self.node = node
        self.locals = {}
        self.globals = globals_
        self.qualname = qualname
        self.parent = parent          # defining Frame (evaluated closures)
        self.closure = closure or {}  # name -> cell (native closures)
        self.names, self.globs, self.nonl, self.isgen = local_names(node)
        self.yields = [] if self.isgen else None
        self.loop_ord = 0
        self.loop_ids = {}


class IFunc(object):
    """function object created by evaluated code"""

    def __init__(self, interp, node, frame, name, defaults, kwdefaults):
        self.interp, self.node, self.frame = interp, node, frame
        self.__name__ = name
        self.__qualname__ = frame.qualname + '.' + name
        self.__doc__ = None
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.class_cell = None

    def __call__(self, *args, **kwargs):
        return self.interp.call_ifunc(self, list(args), dict(kwargs))

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)


class BoundSym(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitOr: operator.or_,
          ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift, ast.Pow: operator.pow}

NOOP_MODULES = ('logging', 'warnings')


class LView(object):
    """view of loop state handed to invariants"""

    def __init__(self, frame, i, n, interp):
        self.frame, self.i, self.n, self.interp = frame, i, n, interp

    def get(self, name):
        return self.frame.locals.get(name)

    def z(self, v):
        return self.interp.to_z3(v)


class Interp(object):
    def __init__(self, eng):
        self.eng = eng
        self.depth = 0
        self.loop_stack = []

    # ---------------------------------------------------------------- values
    def to_z3(self, v):
        if isinstance(v, (SStr, SInt, SBool, SVal)):
            return v.expr() if isinstance(v, SStr) else v.expr
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, list):
            return self.list_expr(v)
        if z3.is_expr(v):
            return v
        raise Unsupported('no z3 term for %r' % type(v))

    def expressible(self, part):
        k, v = part
        return isinstance(v, (str, SStr, SVal)) if k == 'e' else v.seqexpr() is not None

    def list_expr(self, l, sort=None):
        parts = list_parts(l)
        out = []
        for k, v in parts:
            if k == 'e':
                if isinstance(v, (str, SStr)):
                    out.append(z3.Unit(self.to_z3(v)))
                    sort = SeqStr
                elif isinstance(v, SVal):
                    out.append(z3.Unit(v.expr))
                    sort = SeqVal
                else:
                    raise Unsupported('list element without sequence sort: %r' % (type(v),))
            else:
                e = v.seqexpr()
                if e is None:
                    raise Unsupported('list segment without sequence term')
                sort = e.sort()
                out.append(e)
        if not out:
            if sort is None:
                sort = SeqStr
            return z3.Empty(sort)
        if len(out) == 1:
            return out[0]
        return z3.Concat(*out)

    def join_expr(self, sep, l):
        """pieces of sep.join(l)"""
        parts = list_parts(l)
        if sep == '':
            out = []
            for k, v in parts:
                if k == 'e':
                    out.extend(self.pieces(v))
                elif v.seqexpr() is None:
                    m = self.materialize(v)
                    e = m.parts[0][1].seqexpr() if isinstance(m, SList) and m.parts is not None and len(m.parts) == 1 and m.parts[0][0] == 's' else None
                    if e is None:
                        raise Unsupported('join over records')
                    out.append(self.join_atom(z3.StringVal(''), e))
                else:
                    e = v.seqexpr()
                    if e is None:
                        raise Unsupported('join over records')
                    out.append(self.join_atom(z3.StringVal(''), e))
            return mkstr(out)
        if all(k == 'e' for k, _ in parts):
            out = []
            sp = self.pieces(sep)
            for n, (k, v) in enumerate(parts):
                if n:
                    out.extend(sp)
                out.extend(self.pieces(v))
            return mkstr(out)
        out = []
        for k, v in parts:
            if k == 's' and v.seqexpr() is None:
                out += list_parts(self.materialize(v))
            else:
                out.append((k, v))
        return SStr([self.join_atom(self.to_z3(sep), self.list_expr(mklist(out)))])

    def join_atom(self, sep, e):
        j = JOIN(sep, e)
        self.eng.abstract = True
        self.eng.joins.append((sep, e, j))
        return Atom(j)

    def materialize(self, seg):
        """the elements of a segment copied one by one into a new list (the invariants of the contract's loops apply)"""
        node = self.__dict__.get('_copy_loop')
        if node is None:
            node = self.__dict__['_copy_loop'] = ast.parse('def copy(seg):\n    r = []\n    for x in seg:\n        r.append(x)\n    return r\n').body[0]
        n = self.eng.materialized = getattr(self.eng, 'materialized', 0) + 1
        fr = Frame(node, {}, 'copy%d:%s' % (n, getattr(seg, 'name', '')))
        fr.locals['seg'] = mklist([('s', seg)])
        self.ex_block(node.body[:-1], fr)
        return fr.locals['r']

    def pieces(self, v):
        if isinstance(v, str):
            return [v]
        if isinstance(v, SStr):
            return list(v.pieces)
        if isinstance(v, Poison):
            raise Unsupported('poison: ' + v.why)
        raise TypeError('expected str instance, %s found' % type(v).__name__)

    # truth of any value: native bool or z3 Bool
    def truth_expr(self, v):
        if isinstance(v, SBool):
            return v.expr
        if isinstance(v, SStr):
            for p in v.pieces:
                if isinstance(p, str) or p.kind == 'ident':
                    return True
            return z3.Length(v.expr()) > 0
        if isinstance(v, SInt):
            return v.expr != 0
        if isinstance(v, SVal):
            if 'truth' in v.attrs:
                return self.truth_expr(v.attrs['truth'])
            return True
        if isinstance(v, SList) and v.parts is not None:
            if any(k == 'e' for k, _ in v.parts):
                return True
            return z3.Or(*[s.length() > 0 for _, s in v.parts])
        if isinstance(v, Poison):
            raise Unsupported('poison: ' + v.why)
        if isinstance(v, PMap):
            raise Unsupported('truth of symbolic map')
        return bool(v)

    def truth(self, v):
        t = self.truth_expr(v)
        if isinstance(t, bool):
            return t
        return self.eng.decide(t)

    def sym_eq(self, a, b):
        """python == : native bool or z3 Bool"""
        if a is b and not isinstance(a, Poison):
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poison ==')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr):
                if not isinstance(y, (str, SStr)):
                    if isinstance(y, SVal):
                        raise Unsupported('str == opaque')
                    return False
                return self.str_eq(a, b)
            if isinstance(x, SInt):
                if isinstance(y, (int, SInt)) and not isinstance(y, bool):
                    return self.to_z3(a) == self.to_z3(b)
                if isinstance(y, (str, type(None), list, tuple, dict)):
                    return False
                raise Unsupported('int == %r' % type(y))
            if isinstance(x, SBool):
                if isinstance(y, (bool, SBool)):
                    return self.to_z3(a) == self.to_z3(b)
                if isinstance(y, (str, type(None), list, tuple, dict, SStr)):
                    return False
                raise Unsupported('bool == %r' % type(y))
            if isinstance(x, SVal):
                if isinstance(y, SVal):
                    return a.expr == b.expr
                if y is None:
                    return False
                raise Unsupported('opaque == %r' % type(y))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                isinstance(a, list) == isinstance(b, list):
            return self.list_eq(a, b)
        if deep_sym(a) or deep_sym(b):
            if type(a) != type(b) and not (isinstance(a, dict) and isinstance(b, dict)):
                return False
            if isinstance(a, dict) and isinstance(b, dict):
                if set(a) != set(b):
                    return False
                return self.conj([self.sym_eq(a[k], b[k]) for k in a])
            raise Unsupported('== on symbolic container')
        return bool(a == b)

    def conj(self, l):
        out = []
        for x in l:
            if isinstance(x, bool):
                if not x:
                    return False
            else:
                out.append(x)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def list_eq(self, a, b):
        pa, pb = list_parts(a), list_parts(b)
        if all(k == 'e' for k, _ in pa + pb):
            if len(pa) != len(pb):
                return False
            return self.conj([self.sym_eq(x, y) for (_, x), (_, y) in zip(pa, pb)])
        # strip common prefix/suffix
        conds = []
        while pa and pb:
            (k1, x), (k2, y) = pa[0], pb[0]
            if k1 == k2 == 'e':
                conds.append(self.sym_eq(x, y))
            elif k1 == k2 == 's' and x.same(y):
                pass
            else:
                break
            pa.pop(0)
            pb.pop(0)
        while pa and pb:
            (k1, x), (k2, y) = pa[-1], pb[-1]
            if k1 == k2 == 'e':
                conds.append(self.sym_eq(x, y))
            elif k1 == k2 == 's' and x.same(y):
                pass
            else:
                break
            pa.pop()
            pb.pop()
        if not pa and not pb:
            return self.conj(conds)
        try:
            ea, eb = self.list_expr(mklist(pa)), self.list_expr(mklist(pb))
        except Unsupported:
            # one-to-one segments with equal shape
            if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
                raise
            raise
        if ea.sort() != eb.sort():
            if not pa:
                ea = z3.Empty(eb.sort())
            elif not pb:
                eb = z3.Empty(ea.sort())
            else:
                return False
        return self.conj(conds + [ea == eb])

    def str_eq(self, a, b):
        pa, pb = self.pieces(a), self.pieces(b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        ka = mkstr(pa)
        kb = mkstr(pb)
        ka = ka.key() if isinstance(ka, SStr) else (ka,)
        kb = kb.key() if isinstance(kb, SStr) else (kb,)
        if ka == kb:
            return True
        pa, pb = list(pa), list(pb)

        def strip(pa, pb, front):
            ix = 0 if front else -1
            while pa and pb:
                x, y = pa[ix], pb[ix]
                if isinstance(x, str) and isinstance(y, str):
                    m = min(len(x), len(y))
                    if m == 0:
                        if not x:
                            pa.pop(ix)
                        if not y:
                            pb.pop(ix)
                        continue
                    if front:
                        if x[:m] != y[:m]:
                            return False
                        pa[ix], pb[ix] = x[m:], y[m:]
                    else:
                        if x[-m:] != y[-m:]:
                            return False
                        pa[ix], pb[ix] = x[:len(x) - m], y[:len(y) - m]
                elif not isinstance(x, str) and not isinstance(y, str) and x.key == y.key:
                    pa.pop(ix)
                    pb.pop(ix)
                else:
                    break
            return True
        if not strip(pa, pb, True) or not strip(pa, pb, False):
            return False
        pa = [p for p in pa if p != '']
        pb = [p for p in pb if p != '']
        if not pa and not pb:
            return True

        def nonempty(ps):
            return any(isinstance(p, str) or p.kind == 'ident' for p in ps)
        if (not pa and nonempty(pb)) or (not pb and nonempty(pa)):
            return False
        # a literal with characters no identifier has, against identifiers only
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and isinstance(x[0], str) and all(not isinstance(p, str) and p.kind == 'ident' for p in y):
                if y and not x[0].replace('_', 'a').isalnum():
                    return False
        return self.to_z3(mkstr(pa)) == self.to_z3(mkstr(pb))

    def as_bool(self, x):
        return x if isinstance(x, bool) else SBool(x)

    # ---------------------------------------------------------------- calls
    def func_key(self, fn):
        return fn

    def call(self, fn, args, kwargs):
        eng = self.eng
        if isinstance(fn, BoundSym):
            return self.call_symmethod(fn.obj, fn.name, args, kwargs)
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kwargs)
        if isinstance(fn, functools.partial):
            kw = dict(fn.keywords)
            kw.update(kwargs)
            return self.call(fn.func, list(fn.args) + args, kw)
        h = BUILTIN_HANDLERS.get(fn) if _hashable(fn) else None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(fn, types.FunctionType):
            c = eng.contracts.get(fn)
            if c is not None:
                eng.res.contracts_used.add(_fname(fn))
                return c(eng, *args, **kwargs)
            mod = getattr(fn, '__module__', '') or ''
            if mod.split('.')[0] in NOOP_MODULES:
                return None
            if mod == 'traceback':
                return []
            node = find_def(fn)
            if node is not None:
                return self.call_native_source(fn, node, args, kwargs)
            return self.call_native(fn, args, kwargs)
        if isinstance(fn, types.BuiltinMethodType) and not isinstance(fn.__self__, types.ModuleType) \
                and fn.__self__ is not None:
            return self.call_builtin_method(fn, args, kwargs)
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        if isinstance(fn, types.MethodWrapperType) or isinstance(fn, types.WrapperDescriptorType):
            if fn.__name__ == '__init__' and not deep_sym(args[1:] if isinstance(fn, types.WrapperDescriptorType) else args):
                return fn(*args, **kwargs)
            return self.call_native(fn, args, kwargs)
        if isinstance(fn, types.MethodDescriptorType):
            # e.g. str.join used unbound
            return self.call(self.getattr(args[0], fn.__name__), args[1:], kwargs)
        t = type(fn)
        if hasattr(t, '__call__') and not isinstance(fn, (types.BuiltinFunctionType,)):
            return self.call(t.__call__, [fn] + args, kwargs)
        return self.call_native(fn, args, kwargs)

    def call_native(self, fn, args, kwargs):
        mod = getattr(fn, '__module__', '') or ''
        if mod.startswith('contracts') or mod.startswith('pyvc') or mod.startswith('suites'):
            return fn(*args, **kwargs)
        for a in list(args) + list(kwargs.values()):
            if deep_sym(a):
                raise Unsupported('call of unmodelled %r with symbolic argument' % (fn,))
        return fn(*args, **kwargs)

    def construct(self, cls, args, kwargs):
        eng = self.eng
        model = eng.class_models.get(cls)
        if model is not None:
            eng.res.contracts_used.add(cls.__module__ + ':' + cls.__qualname__)
            return model(eng, *args, **kwargs)
        if getattr(cls, '_pyvc_model', False):
            return cls(eng, *args, **kwargs)
        if issubclass(cls, BaseException):
            # exceptions: arguments are stored, not interpreted
            init = _static_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType) and find_def(init) is not None:
                o = cls.__new__(cls)
                self.call(init, [o] + args, kwargs)
                return o
            return cls(*[_Opaque(a) if deep_sym(a) else a for a in args], **kwargs)
        if type(cls).__call__ is not type.__call__:
            return self.call_native(cls, args, kwargs)
        init = _static_lookup(cls, '__init__')
        new = _static_lookup(cls, '__new__')
        if isinstance(init, (types.FunctionType, IFunc)) and new is object.__new__:
            o = cls.__new__(cls)
            self.call(init, [o] + args, kwargs)
            return o
        return self.call_native(cls, args, kwargs)

    def bind(self, name, a, defaults, kwdefaults, args, kwargs):
        """python argument binding; raises TypeError like the real call"""
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        ndef = len(defaults)
        args = list(args)
        kwargs = dict(kwargs)
        for n, p in enumerate(pos):
            if args:
                loc[p] = args.pop(0)
                if p in kwargs:
                    raise TypeError("%s() got multiple values for argument '%s'" % (name, p))
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
            elif n >= len(pos) - ndef:
                loc[p] = defaults[n - (len(pos) - ndef)]
            else:
                raise TypeError("%s() missing required argument: '%s'" % (name, p))
        if a.vararg:
            loc[a.vararg.arg] = tuple(args)
        elif args:
            raise TypeError('%s() takes %d positional arguments but more were given' % (name, len(pos)))
        for n, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError("%s() missing keyword-only argument '%s'" % (name, x.arg))
        if a.kwarg:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, list(kwargs)[0]))
        return loc

    def call_native_source(self, fn, node, args, kwargs):
        self.eng.res.functions.add(_fname(fn))
        closure = {}
        if fn.__closure__:
            closure = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        fr = Frame(node, fn.__globals__, fn.__module__ + ':' + fn.__qualname__, closure=closure)
        fr.locals = self.bind(fn.__name__, node.args, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs)
        return self.run_frame(fr)

    def call_ifunc(self, f, args, kwargs):
        fr = Frame(f.node, f.frame.globals, f.__qualname__, parent=f.frame)
        if f.class_cell is not None:
            fr.closure['__class__'] = f.class_cell
        fr.locals = self.bind(f.__name__, f.node.args, f.defaults, f.kwdefaults, args, kwargs)
        return self.run_frame(fr)

    def run_frame(self, fr):
        self.depth += 1
        if self.depth > 80:
            self.depth = 0
            raise Unsupported('recursion depth')
        try:
            if isinstance(fr.node, ast.Lambda):
                return self.ev(fr.node.body, fr)
            try:
                self.ex_block(fr.node.body, fr)
            except _Return as r:
                if fr.isgen:
                    return iter(mklist([('e', y) for y in fr.yields]))
                return r.value
            if fr.isgen:
                return iter(mklist([('e', y) for y in fr.yields]))
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def ex_block(self, body, fr):
        for s in body:
            self.ex(s, fr)

    def ex(self, s, fr):
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def ex_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def ex_Pass(self, s, fr):
        pass

    def ex_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def ex_Break(self, s, fr):
        raise _Break()

    def ex_Continue(self, s, fr):
        raise _Continue()

    def ex_Global(self, s, fr):
        pass

    ex_Nonlocal = ex_Global

    def ex_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def ex_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def ex_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            setter = lambda v: self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            setter = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.getitem(o, k)
            setter = lambda v: self.setitem(o, k, v)
        r = self.ev(s.value, fr)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            self.list_method(cur, 'extend', [r], {})
            setter(cur)
            return
        setter(self.binop(type(s.op), cur, r))

    def ex_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    raise UnboundLocalError(t.id)
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.note_write(o, t.attr)
                delattr(o, t.attr)
            else:
                raise Unsupported('del')

    def ex_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.ex_block(s.body, fr)
        else:
            self.ex_block(s.orelse, fr)

    def ex_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            if s.msg is not None:
                m = self.ev(s.msg, fr)
                raise AssertionError(_Opaque(m) if deep_sym(m) else m)
            raise AssertionError()

    def ex_Raise(self, s, fr):
        if s.exc is None:
            e = sys.exc_info()[1]
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        v = self.ev(s.exc, fr)
        if isinstance(v, type):
            v = self.construct(v, [], {})
        if not isinstance(v, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        if s.cause is not None:
            raise v from self.ev(s.cause, fr)
        raise v

    def ex_Try(self, s, fr):
        try:
            try:
                self.ex_block(s.body, fr)
            except Exception as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            fr.locals[h.name] = e
                        try:
                            self.ex_block(h.body, fr)
                        finally:
                            if h.name:
                                fr.locals.pop(h.name, None)
                        return_ = True
                        break
                else:
                    raise
            else:
                self.ex_block(s.orelse, fr)
        except (Unsupported, Restart, PathEnd):
            raise
        except BaseException:
            # finally on exceptional / return / break / continue exit
            self.ex_block(s.finalbody, fr)
            raise
        else:
            self.ex_block(s.finalbody, fr)

    def ex_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported('with')
        cm = self.ev(s.items[0].context_expr, fr)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, v, fr)
        try:
            self.ex_block(s.body, fr)
        except (Unsupported, Restart, PathEnd):
            raise
        except Exception:
            if not self.truth(self.call(self.getattr(cm, '__exit__'), list(sys.exc_info()), {})):
                raise
        except EngineSignal:
            self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
            raise
        else:
            self.call(self.getattr(cm, '__exit__'), [None, None, None], {})

    def ex_Import(self, s, fr):
        for al in s.names:
            m = __import__(al.name)
            if al.asname:
                for part in al.name.split('.')[1:]:
                    m = getattr(m, part)
            self.store_name(al.asname or al.name.split('.')[0], m, fr)

    def ex_ImportFrom(self, s, fr):
        m = __import__(s.module or '', fr.globals, None, [a.name for a in s.names], s.level)
        for al in s.names:
            self.store_name(al.asname or al.name, getattr(m, al.name), fr)

    def ex_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.store_name(s.name, f, fr)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return IFunc(self, node, fr, name, defaults, kwd)

    def ex_ClassDef(self, s, fr):
        bases = tuple(self.ev(b, fr) for b in s.bases)
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords}
        fake = ast.FunctionDef(name=s.name, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[]), body=s.body, decorator_list=[], lineno=s.lineno,
                               col_offset=0)
        cfr = Frame(fake, fr.globals, fr.qualname + '.' + s.name, parent=fr)
        cfr.is_class = True
        self.ex_block(s.body, cfr)
        ns = dict(cfr.locals)
        ns['__module__'] = fr.globals.get('__name__')
        funcs = [v for v in ns.values() if isinstance(v, IFunc)]
        ns2 = {k: (_as_native(v) if isinstance(v, IFunc) else v) for k, v in ns.items()}
        cls = types.new_class(s.name, bases, kw, lambda d: d.update(ns2))
        cell = types.CellType(cls)
        for f in funcs:
            f.class_cell = cell
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, fr), [cls], {})
        self.store_name(s.name, cls, fr)

    # ------------------------------------------------------------ names
    def load_name(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if (first or not getattr(f, 'is_class', False)):
                if name in f.locals:
                    return f.locals[name]
                if name in f.names and not getattr(f, 'is_class', False):
                    raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
            if name in f.globs:
                break
            if name in f.closure:
                c = f.closure[name]
                try:
                    return c.cell_contents
                except ValueError:
                    raise NameError(name)
            f = f.parent
            first = False
        g = fr.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError("name '%s' is not defined" % name)

    def store_name(self, name, v, fr):
        if name in fr.globs:
            raise Unsupported('store to global')
        if name in fr.nonl:
            f = fr.parent
            while f is not None:
                if name in f.names:
                    f.locals[name] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal store')
        fr.locals[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_concrete(v)
            star = [n for n, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, SList(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise ValueError('wrong number of values to unpack (expected %d)' % len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assign to %s' % type(t).__name__)

    def iter_concrete(self, v):
        """native list of the elements; Unsupported when unbounded"""
        if isinstance(v, SList) and v.parts is not None:
            raise Unsupported('unpacking an unbounded list')
        if isinstance(v, (SVal, Poison, SInt, SBool, SStr, PMap)):
            raise Unsupported('iteration over %r' % type(v).__name__)
        if isinstance(v, PyIter):
            return v.rest()
        return list(v)

    # ------------------------------------------------------------ heap access
    def note_write(self, obj, cell=None):
        if self.loop_stack:
            for lp in self.loop_stack:
                lp.note(obj, cell)

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported('poison.' + name)
        if isinstance(o, SVal):
            if name in o.attrs:
                return o.attrs[name]
            h = o.attrs.get('__getattr__')
            if h is not None:
                return h(self.eng, o, name)
            raise Unsupported('attribute %s of opaque value' % name)
        if isinstance(o, (SStr, SInt, SBool)) or isinstance(o, PMap):
            return BoundSym(o, name)
        if isinstance(o, str) or isinstance(o, (list, dict, set)) and not isinstance(o, type):
            if type(o) in (str, list, dict, set, SList) and hasattr(o, name):
                return BoundSym(o, name)
        if isinstance(o, super):
            return getattr(o, name)
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            return getattr(o, name)
        cls = type(o)
        if name == '__class__':
            return cls
        d = _static_lookup(cls, name)
        if isinstance(d, property):
            if d.fget is None:
                raise AttributeError('unreadable attribute')
            return self.call(d.fget, [o], {})
        return getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, (Sym, PMap)):
            raise Unsupported('store to attribute of opaque value')
        if isinstance(o, types.ModuleType) or isinstance(o, type):
            if not getattr(self.eng, 'allow_global_writes', False):
                raise Unsupported('store to module or class attribute %s' % name)
        d = _static_lookup(type(o), name)
        if isinstance(d, property):
            if d.fset is None:
                raise AttributeError("can't set attribute")
            self.call(d.fset, [o, v], {})
            return
        self.note_write(o, name)
        setattr(o, name, v)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None,
                         self.ev(s.upper, fr) if s.upper else None,
                         self.ev(s.step, fr) if s.step else None)
        return self.ev(s, fr)

    def key(self, k):
        """native key for a native dict"""
        if deep_sym(k):
            raise Unsupported('symbolic key in native dict')
        return k

    def getitem(self, o, k):
        if isinstance(o, PMap):
            kz = self.to_z3(k)
            if not self.eng.decide(z3.Select(o.present, kz)):
                raise KeyError('symbolic key')
            return self.pmap_wrap(o, z3.Select(o.value, kz))
        if isinstance(o, (SStr,)):
            return self.str_index(o, k)
        if isinstance(o, (str,)) and not deep_sym(k):
            return o[k]
        if isinstance(o, str):
            return self.str_index(SStr([o]), k)
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                if any(isinstance(x, SInt) for x in (k.start, k.stop, k.step)):
                    raise Unsupported('symbolic slice')
                return self.list_slice(o, k)
            if isinstance(k, SInt):
                parts = list_parts(o)
                if len(parts) == 1 and parts[0][0] == 's':
                    seg = parts[0][1]
                    n = seg.length()
                    if self.eng.check(z3.Not(z3.And(k.expr >= 0, k.expr < n))) == z3.unsat:
                        return seg.element(self.eng, k.expr)
                raise Unsupported('symbolic list index')
            if isinstance(o, SList) and o.parts is not None:
                parts = o.parts
                if isinstance(k, int) and k >= 0 and all(p[0] == 'e' for p in parts[:k + 1]) and len(parts) > k:
                    return parts[k][1]
                if isinstance(k, int) and k < 0 and len(parts) >= -k and all(p[0] == 'e' for p in parts[k:]):
                    return parts[k][1]
                if isinstance(k, int) and k == -1 and parts[-1][0] == 's':
                    seg = parts[-1][1]
                    n = seg.length()
                    if len(parts) == 1:
                        if not self.eng.decide(n > 0):
                            raise IndexError('list index out of range')
                        return seg.element(self.eng, n - 1)
                if isinstance(k, int) and k == 0 and len(parts) == 1:
                    seg = parts[0][1]
                    if not self.eng.decide(seg.length() > 0):
                        raise IndexError('list index out of range')
                    return seg.element(self.eng, z3.IntVal(0))
                raise Unsupported('index into unbounded list')
            return list.__getitem__(o, k) if isinstance(o, list) else o[k]
        if isinstance(o, dict):
            if deep_sym(k):
                for kk in o:
                    if self.truth(self.as_bool(self.sym_eq(kk, k))):
                        return o[kk]
                raise KeyError('symbolic key')
            return o[k]
        if isinstance(o, (Sym,)):
            raise Unsupported('subscript of %r' % type(o).__name__)
        m = _static_lookup(type(o), '__getitem__')
        if isinstance(m, types.FunctionType):
            return self.call(m, [o, k], {})
        if deep_sym(k):
            raise Unsupported('symbolic subscript')
        return o[k]

    def list_slice(self, o, k):
        if not (isinstance(o, SList) and o.parts is not None):
            r = o[k] if not isinstance(o, list) else list.__getitem__(o, k)
            return SList(r) if isinstance(o, list) else r
        parts = o.parts
        if k.step == -1 and k.start is None and k.stop is None:
            l = mklist(parts)
            self.list_method(l, 'reverse', [], {})
            return l
        if k.step not in (None, 1):
            raise Unsupported('slice step')
        lo, hi = k.start, k.stop
        if lo in (None, 0) and hi is None:
            return mklist(parts)
        if isinstance(lo, int) and lo > 0 and hi is None and len(parts) >= lo and all(p[0] == 'e' for p in parts[:lo]):
            return mklist(parts[lo:])
        if lo in (None, 0) and isinstance(hi, int) and hi >= 0 and len(parts) >= hi and all(p[0] == 'e' for p in parts[:hi]):
            return mklist(parts[:hi])
        if lo in (None, 0) and isinstance(hi, int) and hi < 0 and len(parts) >= -hi and all(p[0] == 'e' for p in parts[hi:]):
            return mklist(parts[:hi])
        raise Unsupported('slice of unbounded list')

    def str_index(self, s, k):
        e = s.expr()
        n = z3.Length(e)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('string slice step')

            def norm(x, default):
                if x is None:
                    return default
                if isinstance(x, int):
                    return z3.IntVal(x) if x >= 0 else z3.If(n + x > 0, n + x, z3.IntVal(0))
                x = x.expr
                return z3.If(x < 0, z3.If(n + x > 0, n + x, z3.IntVal(0)), x)
            # fast path on literal pieces
            if k.start in (None,) and isinstance(k.stop, int) and k.stop < 0 and isinstance(s.pieces[-1], str) \
                    and len(s.pieces[-1]) >= -k.stop:
                return mkstr(list(s.pieces[:-1]) + [s.pieces[-1][:k.stop]])
            if k.stop is None and isinstance(k.start, int) and k.start >= 0 and isinstance(s.pieces[0], str) \
                    and len(s.pieces[0]) >= k.start:
                return mkstr([s.pieces[0][k.start:]] + list(s.pieces[1:]))
            lo = norm(k.start, z3.IntVal(0))
            hi = norm(k.stop, n)
            hi2 = z3.If(hi > n, n, hi)
            ln = z3.If(hi2 > lo, hi2 - lo, z3.IntVal(0))
            return SStr([Atom(z3.simplify(z3.SubString(e, lo, ln)))])
        if isinstance(k, int):
            if k >= 0 and isinstance(s.pieces[0], str) and len(s.pieces[0]) > k:
                return s.pieces[0][k]
            if k < 0 and isinstance(s.pieces[-1], str) and len(s.pieces[-1]) >= -k:
                return s.pieces[-1][k]
        kz = self.to_z3(k)
        if not self.eng.decide(z3.And(kz < n, kz >= -n)):
            raise IndexError('string index out of range')
        pos = z3.simplify(z3.If(kz < 0, n + kz, kz))
        return SStr([Atom(z3.SubString(e, pos, 1))])

    def pmap_wrap(self, o, e):
        if o.wrap is not None:
            return o.wrap(e)
        if e.sort() == StrSort:
            return SStr([Atom(e)])
        if e.sort() == z3.IntSort():
            return SInt(e)
        if e.sort() == Val:
            return SVal(e)
        raise Unsupported('map value sort')

    def setitem(self, o, k, v):
        if isinstance(o, PMap):
            self.note_write(o)
            kz = self.to_z3(k)
            o.present = z3.Store(o.present, kz, z3.BoolVal(True))
            o.value = z3.Store(o.value, kz, o.unwrap(v) if o.unwrap else self.to_z3(v))
            return
        if isinstance(o, list):
            self.note_write(o)
            if isinstance(o, SList) and o.parts is not None:
                if isinstance(k, int) and 0 <= k < len(o.parts) and all(p[0] == 'e' for p in o.parts[:k + 1]):
                    o.parts[k] = ('e', v)
                    return
                raise Unsupported('store into unbounded list')
            if isinstance(k, SInt):
                raise Unsupported('symbolic index store')
            if isinstance(k, slice):
                v = self.iter_concrete(v)
            list.__setitem__(o, k, v)
            return
        if isinstance(o, dict):
            self.note_write(o)
            o[self.key(k)] = v
            return
        m = _static_lookup(type(o), '__setitem__')
        if isinstance(m, types.FunctionType):
            self.call(m, [o, k, v], {})
            return
        raise Unsupported('item store on %r' % type(o))

    def delitem(self, o, k):
        if isinstance(o, PMap):
            self.note_write(o)
            kz = self.to_z3(k)
            if not self.eng.decide(z3.Select(o.present, kz)):
                raise KeyError('symbolic key')
            o.present = z3.Store(o.present, kz, z3.BoolVal(False))
            return
        if isinstance(o, dict):
            self.note_write(o)
            del o[self.key(k)]
            return
        if isinstance(o, list) and not (isinstance(o, SList) and o.parts is not None) and not isinstance(k, SInt):
            self.note_write(o)
            list.__delitem__(o, k)
            return
        raise Unsupported('del item')

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_Tuple(self, e, fr):
        return tuple(self.ev_elts(e.elts, fr))

    def ev_List(self, e, fr):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                parts.extend(list_parts(v) if isinstance(v, list) else [('e', y) for y in self.iter_concrete(v)])
            else:
                parts.append(('e', self.ev(x, fr)))
        return mklist(parts)

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_concrete(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Set(self, e, fr):
        return set(self.key(x) for x in self.ev_elts(e.elts, fr))

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                d[self.key(kk)] = self.ev(v, fr)
        return d

    def ev_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                    if deep_sym(x):
                        raise Unsupported('format spec on symbolic value')
                    out.append(format(x, spec))
                elif v.conversion == 114:
                    out.extend(self.pieces(self.repr_of(x)))
                else:
                    out.extend(self.pieces(self.str_of(x)))
        return mkstr(out)

    def ev_FormattedValue(self, e, fr):
        return self.ev_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def ev_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def ev_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def ev_Yield(self, e, fr):
        fr.yields.append(self.ev(e.value, fr) if e.value else None)
        return None

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for n, x in enumerate(e.values):
            v = self.ev(x, fr)
            if n == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_expr(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        if isinstance(v, SInt):
            if isinstance(e.op, ast.USub):
                return SInt(-v.expr)
            raise Unsupported('unary op')
        if isinstance(v, Sym):
            raise Unsupported('unary op')
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def ev_BinOp(self, e, fr):
        return self.binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if op is ast.Mod and isinstance(a, (str, SStr)):
            return self.format_percent(a, b)
        if isinstance(a, list) and isinstance(b, list) and op is ast.Add:
            return mklist(list_parts(a) + list_parts(b))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return mkstr(self.pieces(a) + self.pieces(b))
        if op is ast.Mult:
            if isinstance(b, (str, SStr)):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, SInt):
                if a == ' ':
                    return SStr([Atom(SPACES(b.expr), 'line')])
                raise Unsupported('string repetition')
            if isinstance(a, list) and isinstance(b, int) and not isinstance(b, bool):
                return mklist(list_parts(a) * b)
        if isinstance(a, (SInt,)) or isinstance(b, SInt):
            if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
                x, y = self.to_z3(a), self.to_z3(b)
                if op is ast.Add:
                    return SInt(x + y)
                if op is ast.Sub:
                    return SInt(x - y)
                if op is ast.Mult:
                    return SInt(x * y)
            raise Unsupported('arithmetic')
        if is_sym(a) or is_sym(b):
            if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)) and op is ast.Add:
                if not isinstance(a, Poison) and not isinstance(b, Poison) and not isinstance(a, SVal) and not isinstance(b, SVal):
                    raise TypeError('can only concatenate str to str')
            raise Unsupported('operator on symbolic value')
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return a + b
        if isinstance(a, (list, tuple)) and deep_sym(a):
            if isinstance(b, (list, tuple)) and type(a) != type(b):
                raise TypeError('can only concatenate')
        m = _static_lookup(type(a), {ast.Add: '__add__', ast.Mod: '__mod__'}.get(op, '__none__'))
        if isinstance(m, types.FunctionType) and find_def(m) is not None:
            return self.call(m, [a, b], {})
        return BINOPS[op](a, b)

    def str_of(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, SInt):
            return SStr([Atom(ITOA(v.expr), 'line')])
        if isinstance(v, SVal):
            return SStr([Atom(STR_V(v.expr))])
        if isinstance(v, SBool):
            return 'True' if self.eng.decide(v.expr) else 'False'
        if getattr(type(v), '_pyvc_model', False) and '__str__' in type(v).__dict__:
            return v.__str__()
        if isinstance(v, Poison) or deep_sym(v):
            if isinstance(v, (list, tuple, dict)):
                return self.repr_of(v)
            raise Unsupported('str of %r' % type(v))
        m = _static_lookup(type(v), '__str__')
        if isinstance(m, types.FunctionType) and find_def(m) is not None:
            return self.call(m, [v], {})
        if m is object.__str__:
            return self.repr_of(v)
        return str(v)

    def repr_of(self, v):
        if isinstance(v, SStr):
            return SStr([Atom(REPR_S(v.expr()))])
        if isinstance(v, SVal):
            return SStr([Atom(REPR_V(v.expr))])
        if isinstance(v, (SInt, SBool)):
            return self.str_of(v)
        if isinstance(v, (list, tuple)) and deep_sym(v):
            self.eng.abstract = self.eng.inexact = True
            return SStr([Atom(z3.String(self.eng.fresh_name('repr')))])
        if deep_sym(v):
            raise Unsupported('repr')
        m = _static_lookup(type(v), '__repr__')
        if isinstance(m, types.FunctionType) and find_def(m) is not None:
            return self.call(m, [v], {})
        if m is object.__repr__:
            return '<%s object>' % type(v).__name__
        return repr(v)

    def format_percent(self, f, arg):
        if isinstance(f, SStr):
            # a literal percent inside an atom would be a directive
            raise Unsupported('symbolic format string')
        if isinstance(arg, tuple):
            args = list(arg)
        else:
            args = [arg]
        if isinstance(arg, dict):
            return self.format_percent_dict(f, arg)
        out = []
        i = 0
        while i < len(f):
            j = f.find('%', i)
            if j < 0:
                out.append(f[i:])
                break
            out.append(f[i:j])
            k = j + 1
            while k < len(f) and f[k] in '-+ #0123456789.':
                k += 1
            if k >= len(f):
                raise ValueError('incomplete format')
            c = f[k]
            spec = f[j:k + 1]
            i = k + 1
            if c == '%':
                out.append('%')
                continue
            if not args:
                raise TypeError('not enough arguments for format string')
            a = args.pop(0)
            if c == 's' and spec == '%s':
                out.extend(self.pieces(self.str_of(a)))
            elif c == 'r' and spec == '%r':
                out.extend(self.pieces(self.repr_of(a)))
            elif c in 'xX' and isinstance(a, SInt):
                fx = z3.Function('format ' + spec, z3.IntSort(), StrSort)
                out.append(Atom(fx(a.expr), cs=(True, frozenset('0123456789abcdef ' if c == 'x' else '0123456789ABCDEF ') | frozenset('-' if not getattr(a, 'code', False) else ''))))
                if ' ' not in spec and (len(spec) == 2 or spec[1] == '0'):
                    out[-1].cs = cs_sub(out[-1].cs, frozenset(' '))
            elif c in 'id' and isinstance(a, SInt):
                if len(spec) != 2:
                    raise Unsupported('format spec')
                out.extend(self.pieces(self.str_of(a)))
            elif deep_sym(a):
                if c in 'id' and isinstance(a, (SStr,)):
                    raise TypeError('%d format: a number is required, not str')
                raise Unsupported('format of symbolic value with ' + spec)
            else:
                out.append(spec % (a,))
        if args and not isinstance(arg, dict):
            raise TypeError('not all arguments converted during string formatting')
        return mkstr(out)

    def format_percent_dict(self, f, d):
        import re
        out = []
        pos = 0
        for m in re.finditer(r'%(?:\((\w+)\)([srid])|(%))', f):
            out.append(f[pos:m.start()])
            pos = m.end()
            if m.group(3):
                out.append('%')
                continue
            v = d[m.group(1)]
            if m.group(2) == 'r':
                out.extend(self.pieces(self.repr_of(v)))
            else:
                out.extend(self.pieces(self.str_of(v)))
        rest = f[pos:]
        if '%' in rest or any('%' in o for o in out if isinstance(o, str) and o != '%'):
            raise Unsupported('format string')
        out.append(rest)
        return mkstr(out)

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
            res = r
        return res

    def neg(self, x):
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.as_bool(self.py_eq(a, b))
        if isinstance(op, ast.NotEq):
            return self.as_bool(self.neg(self.py_eq(a, b)))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported('poison is')
            if isinstance(a, SVal) and isinstance(b, SVal):
                r = a.expr == b.expr
            elif isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
                r = self.to_z3(a) == self.to_z3(b)
            elif isinstance(a, (SStr, SInt)) and isinstance(b, (SStr, SInt)) and a is not b:
                raise Unsupported('identity of symbolic values')
            elif isinstance(a, SVal) and a.attrs.get('is_none') is not None and b is None:
                r = a.attrs['is_none']
            else:
                r = a is b
            return self.as_bool(r if isinstance(op, ast.Is) else self.neg(r))
        if isinstance(op, ast.In):
            return self.as_bool(self.contains(b, a))
        if isinstance(op, ast.NotIn):
            return self.as_bool(self.neg(self.contains(b, a)))
        ops = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
        f = ops[type(op)]
        if isinstance(a, SInt) or isinstance(b, SInt):
            if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
                return SBool(f(self.to_z3(a), self.to_z3(b)))
            raise Unsupported('ordering')
        if deep_sym(a) or deep_sym(b):
            raise Unsupported('ordering of symbolic values')
        return f(a, b)

    def py_eq(self, a, b):
        m = _static_lookup(type(a), '__eq__')
        if isinstance(m, types.FunctionType) and find_def(m) is not None:
            r = self.call(m, [a, b], {})
            t = self.truth_expr(r)
            return t
        return self.sym_eq(a, b)

    def contains(self, cont, x):
        if isinstance(cont, PMap):
            return z3.Select(cont.present, self.to_z3(x))
        if isinstance(cont, (str, SStr)):
            if isinstance(x, SVal) or isinstance(x, Poison):
                raise Unsupported('in str')
            if not isinstance(x, (str, SStr)):
                raise TypeError("'in <string>' requires string as left operand")
            if isinstance(cont, str) and isinstance(x, str):
                return x in cont
            if isinstance(x, str):
                ps = self.pieces(cont)
                if any(isinstance(p, str) and x in p for p in ps):
                    return True
                if x and not any(c.isalnum() or c == '_' for c in x) and \
                        all(isinstance(p, str) or p.kind == 'ident' for p in ps) and len(x) == 1:
                    return False
                if x == '\n' and all(isinstance(p, str) or p.kind in ('ident', 'line') for p in ps):
                    return False
            return z3.Contains(self.to_z3(cont), self.to_z3(x))
        if isinstance(cont, (list, tuple)):
            out = []
            for k, v in list_parts(cont):
                if k == 'e':
                    r = self.sym_eq(v, x)
                    if r is True:
                        return True
                    if r is not False:
                        out.append(r)
                else:
                    e = v.seqexpr()
                    if e is None:
                        raise Unsupported('in records')
                    if e.sort() == SeqStr and isinstance(x, (str, SStr)) or e.sort() == SeqVal and isinstance(x, SVal):
                        out.append(z3.Contains(e, z3.Unit(self.to_z3(x))))
                    elif x is None:
                        pass
                    else:
                        raise Unsupported('in seq')
            if not out:
                return False
            return z3.Or(*out)
        if isinstance(cont, (dict, set, frozenset)):
            if deep_sym(x):
                out = []
                for v in cont:
                    r = self.sym_eq(v, x)
                    if r is True:
                        return True
                    if r is not False:
                        out.append(r)
                return z3.Or(*out) if out else False
            return x in cont
        if isinstance(cont, Sym):
            raise Unsupported('in symbolic')
        m = _static_lookup(type(cont), '__contains__')
        if isinstance(m, types.FunctionType):
            return self.truth_expr(self.call(m, [cont, x], {}))
        return x in cont

    def ev_Call(self, e, fr):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = self.load_name('__class__', fr)
            first = fr.node.args.args[0].arg
            return super(cls, fr.locals[first])
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars') and not e.args and not e.keywords:
            return dict(fr.locals)
        fn = self.ev(e.func, fr)
        if (fn is all or fn is any) and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) == 1 and not e.keywords:
            return self.comp_loop(e.args[0], fr, fn.__name__)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_concrete(self.ev(a.value, fr)))
            elif isinstance(a, ast.GeneratorExp) and len(e.args) == 1:
                args.append(self.ev_ListComp(a, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kwargs)

    # comprehensions ------------------------------------------------------
    def comp_frame(self, fr):
        f = Frame.__new__(Frame)
        f.__dict__.update(node=fr.node, locals={}, globals=fr.globals, qualname=fr.qualname, parent=fr,
                          closure={}, names=frozenset(), globs=fr.globs, nonl=frozenset(), isgen=False,
                          yields=None, loop_ord=0, loop_ids={})
        return f

    def comp_loop(self, e, fr, kind):
        """a comprehension (or all/any of a generator) as the loop it stands for, in a scope of its own"""
        node = e.__dict__.get('_pyvc_' + kind)
        if node is None:
            r = ast.Name('.r', ast.Load())
            if kind == 'list':
                s = ast.Expr(ast.Call(ast.Attribute(r, 'append', ast.Load()), [e.elt], []))
                body = [s]
            else:
                t = ast.UnaryOp(ast.Not(), e.elt) if kind == 'all' else e.elt
                body = [ast.If(t, [ast.Assign([ast.Name('.r', ast.Store())], ast.Constant(kind == 'any')), ast.Break()], [])]
            for k, g in reversed(list(enumerate(e.generators))):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                f = ast.For(g.target, g.iter, body, [])
                f.lineno, f.col_offset = e.lineno, e.col_offset * 100 + k
                body = [f]
            node = body[0]
            for n in ast.walk(node):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.stmt, ast.expr)):
                    n.lineno, n.col_offset = e.lineno, e.col_offset
            e.__dict__['_pyvc_' + kind] = node
        cf = self.comp_frame(fr)
        cf.locals['.r'] = mklist([]) if kind == 'list' else kind == 'all'
        self.ex_block([node], cf)
        return cf.locals['.r']

    def ev_ListComp(self, e, fr):
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.pmap_keys(self.ev(g.iter, fr))
            if isinstance(it, SList) and it.parts is not None:
                if g.ifs:
                    return self.comp_loop(e, fr, 'list')
                return self.map_parts(it, g, e.elt, fr)
            parts = []
            for x in self.iterate(it):
                cf = self.comp_frame(fr)
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    parts.append(('e', self.ev(e.elt, cf)))
            return mklist(parts)
        return self.comp_loop(e, fr, 'list')

    ev_GeneratorExp = ev_ListComp

    def map_parts(self, it, g, elt, fr):
        def f(x):
            cf = self.comp_frame(fr)
            self.assign(g.target, x, cf)
            return self.ev(elt, cf)
        return self.map_over(it, f)

    def map_over(self, it, f):
        parts = []
        for k, v in it.parts:
            if k == 'e':
                parts.append(('e', f(v)))
            else:
                seg = v

                def make(eng, i, seg=seg):
                    return f(seg.element(eng, i))
                # element evaluated for an arbitrary index: faults surface here
                if self.eng.choose(2, 'comp') == 1:
                    i = z3.Int(self.eng.fresh_name('ci'))
                    self.eng.assume(z3.And(i >= 0, i < seg.length()))
                    make(self.eng, i)
                    raise PathEnd()
                ns = RecSeg('map', seg.length(), make)
                ns.base = seg
                parts.append(('s', ns))
        return mklist(parts)

    def ev_SetComp(self, e, fr):
        return set(self.key(x) for x in self.iter_concrete(self.ev_ListComp(e, fr)))

    def ev_DictComp(self, e, fr):
        g = e.generators
        if len(g) != 1:
            raise Unsupported('dict comprehension')
        d = {}
        for x in self.iterate(self.ev(g[0].iter, fr)):
            cf = self.comp_frame(fr)
            self.assign(g[0].target, x, cf)
            if all(self.truth(self.ev(c, cf)) for c in g[0].ifs):
                d[self.key(self.ev(e.key, cf))] = self.ev(e.value, cf)
        return d

    def iterate(self, it):
        """native iteration over a collection with concrete length"""
        if isinstance(it, SList):
            if it.parts is not None:
                raise Unsupported('iteration over unbounded list here')

            def gen():
                n = 0
                while n < list.__len__(it):
                    if it.parts is not None:
                        raise Unsupported('list became unbounded while iterating')
                    yield list.__getitem__(it, n)
                    n += 1
            return gen()
        if isinstance(it, PyIter):
            return it.drain()
        if isinstance(it, (Sym, PMap)):
            raise Unsupported('iteration over %s' % type(it).__name__)
        m = _static_lookup(type(it), '__iter__')
        if isinstance(m, types.FunctionType) and find_def(m) is not None:
            return self.call(m, [it], {})
        return iter(it)

    # loops ------------------------------------------------------------------
    def loop_key(self, s, fr):
        base = fr.node
        return (fr.qualname, getattr(s, 'lineno', 0) - getattr(base, 'lineno', 0), s.col_offset)

    def pmap_keys(self, it):
        return it.enum(self.eng, 'keys') if isinstance(it, PMap) and getattr(it, 'enum', None) else it

    def ex_For(self, s, fr):
        it = self.pmap_keys(self.ev(s.iter, fr))
        if isinstance(it, SList) and it.parts is not None:
            self.for_symbolic(s, it, fr)
            return
        broke = False
        for x in self.iterate(it):
            self.assign(s.target, x, fr)
            try:
                self.ex_block(s.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.ex_block(s.orelse, fr)

    def for_symbolic(self, s, it, fr):
        from .loops import cut_segment
        for n, (k, v) in enumerate(list(it.parts)):
            try:
                if k == 'e':
                    self.assign(s.target, v, fr)
                    try:
                        self.ex_block(s.body, fr)
                    except _Continue:
                        pass
                else:
                    cut_segment(self, s, v, n, fr)
            except _Break:
                return
        self.ex_block(s.orelse, fr)

    def ex_While(self, s, fr):
        from .loops import cut_while
        key = self.loop_key(s, fr)
        info = self.eng.loops.get(key)
        if info is not None and info.symbolic:
            try:
                cut_while(self, s, fr, key, info)
            except _Break:
                return
            return
        count = 0
        while True:
            v = self.ev(s.test, fr)
            t = self.truth_expr(v)
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
                else:
                    info = self.eng.loops.setdefault(key, LoopInfo())
                    info.symbolic = True
                    raise Restart('while loop %s' % (key,))
            if not t:
                self.ex_block(s.orelse, fr)
                return
            count += 1
            if count > 6 and isinstance(s.test, ast.Constant):
                # left by a decision on symbolic values in the body
                info = self.eng.loops.setdefault(key, LoopInfo())
                info.symbolic = True
                raise Restart('endless loop %s' % (key,))
            if count > 300:
                raise Unsupported('while loop bound')
            try:
                self.ex_block(s.body, fr)
            except _Break:
                return
            except _Continue:
                continue

    # ------------------------------------------------------------ methods of builtins
    def call_builtin_method(self, fn, args, kwargs):
        o, name = fn.__self__, fn.__name__
        if isinstance(o, (str, list, dict, set)) and not isinstance(o, type):
            return self.call_symmethod(o, name, args, kwargs)
        return self.call_native(fn, args, kwargs)

    def call_symmethod(self, o, name, args, kwargs):
        if isinstance(o, (str, SStr)):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, list):
            return self.list_method(o, name, args, kwargs)
        if isinstance(o, PMap):
            return self.pmap_method(o, name, args, kwargs)
        if isinstance(o, dict):
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, set):
            if name in ('add', 'discard', 'remove', 'update', 'clear', 'pop', 'difference_update'):
                self.note_write(o)
            if deep_sym(args):
                raise Unsupported('set of symbolic values')
            args = [self.iter_concrete(a) if isinstance(a, PyIter) else a for a in args]
            return getattr(o, name)(*args, **kwargs)
        raise Unsupported('method %s of %s' % (name, type(o).__name__))

    def str_method(self, o, name, args, kwargs):
        if isinstance(o, str) and not deep_sym(args) and not deep_sym(list(kwargs.values())):
            if name == 'join':
                return o.join(self.iter_concrete(args[0]))
            r = getattr(o, name)(*args, **kwargs)
            return SList(r) if isinstance(r, list) else r
        if name == 'join':
            l = args[0]
            if isinstance(l, PyIter):
                l = mklist([('e', x) for x in l.rest()])
            elif not isinstance(l, (list, tuple)):
                l = mklist([('e', x) for x in self.iter_concrete(l)])
            return self.join_expr(o, l)
        ps = self.pieces(o)
        if name == 'startswith' or name == 'endswith':
            a = args[0]
            if isinstance(a, tuple):
                out = [self.truth_expr(self.str_method(o, name, [x], {})) for x in a]
                if any(x is True for x in out):
                    return True
                out = [x for x in out if x is not False]
                return SBool(z3.Or(*out)) if out else False
            if isinstance(a, str) and ps:
                p = ps[0] if name == 'startswith' else ps[-1]
                if isinstance(p, str):
                    m = min(len(p), len(a))
                    if name == 'startswith':
                        if p[:m] != a[:m]:
                            return False
                        if len(p) >= len(a):
                            return True
                    else:
                        if m and p[-m:] != a[-m:]:
                            return False
                        if len(p) >= len(a):
                            return True
                elif p.kind == 'ident' and a:
                    c = a[0] if name == 'startswith' else a[-1]
                    if not (c.isalnum() or c == '_'):
                        return False
            e, x = self.to_z3(o), self.to_z3(a)
            return SBool(z3.PrefixOf(x, e) if name == 'startswith' else z3.SuffixOf(x, e))
        if name == 'split' and len(args) == 1 and args[0] == '\n' and not kwargs:
            if all(isinstance(p, str) or p.kind in ('ident', 'line') for p in ps):
                rows = [[]]
                for p in ps:
                    if isinstance(p, str):
                        segs = p.split('\n')
                        rows[-1].append(segs[0])
                        for x in segs[1:]:
                            rows.append([x])
                    else:
                        rows[-1].append(p)
                return mklist([('e', mkstr(r)) for r in rows])
            e = SPLITNL(self.to_z3(o))
            self.eng.assume(z3.Length(e) >= 1)
            return mklist([('s', SeqSeg(e))])
        if name in ('rstrip', 'lstrip', 'strip') and not args:
            out = list(ps)
            ok = True
            if name in ('rstrip', 'strip'):
                while out:
                    if isinstance(out[-1], str):
                        r = out[-1].rstrip()
                        if r:
                            out[-1] = r
                            break
                        out.pop()
                        continue
                    if out[-1].kind == 'ident':
                        break
                    ok = False
                    break
            if ok and name in ('lstrip', 'strip'):
                while out:
                    if isinstance(out[0], str):
                        r = out[0].lstrip()
                        if r:
                            out[0] = r
                            break
                        out.pop(0)
                        continue
                    if out[0].kind == 'ident':
                        break
                    ok = False
                    break
            if ok:
                return mkstr(out)
            if name == 'rstrip':
                self.eng.abstract = self.eng.inexact = True
                return SStr([Atom(RSTRIP(self.to_z3(o)))])
            raise Unsupported(name)
        if name == 'replace' and len(args) == 2 and isinstance(args[0], str) and args[0]:
            old = args[0]
            if len(old) == 1 or len(ps) == 1:
                out = []
                for p in ps:
                    if isinstance(p, str):
                        segs = p.split(old)
                        for n, x in enumerate(segs):
                            if n:
                                out.extend(self.pieces(args[1]))
                            out.append(x)
                    elif not all(cs_has(p.cs, c) for c in old):
                        out.append(p)
                    elif isinstance(args[1], str):
                        cs = cs_sub(p.cs, frozenset(old)) if len(old) == 1 else p.cs
                        f = z3.Function('replace %r %r' % (old, args[1]), StrSort, StrSort)
                        out.append(Atom(f(p.expr), cs=cs_add(cs, frozenset(args[1]))))
                    else:
                        raise Unsupported('replace')
                return mkstr(out)
        if name in ('upper', 'lower', 'capitalize', 'title'):
            raise Unsupported('str.' + name)
        if name == 'format' and isinstance(o, str):
            import re
            out = []
            pos = 0
            auto = 0
            for m in re.finditer(r'\{(\d*|[A-Za-z_]\w*)\}|\{\{|\}\}', o):
                out.append(o[pos:m.start()])
                pos = m.end()
                if m.group(0) in ('{{', '}}'):
                    out.append(m.group(0)[0])
                    continue
                if m.group(1) and not m.group(1).isdigit():
                    if m.group(1) not in kwargs:
                        raise KeyError(m.group(1))
                    out.extend(self.pieces(self.str_of(kwargs[m.group(1)])))
                    continue
                if m.group(1):
                    k = int(m.group(1))
                else:
                    k = auto
                    auto += 1
                out.extend(self.pieces(self.str_of(args[k])))
            rest = o[pos:]
            if '{' in rest or '}' in rest:
                raise Unsupported('format')
            out.append(rest)
            return mkstr(out)
        if name == 'split' and isinstance(args[0], str) and len(args) == 1 and args[0] and \
                not any(c.isalnum() or c == '_' for c in args[0]) and \
                all(isinstance(p, str) or p.kind == 'ident' for p in ps):
            rows = [[]]
            for p in ps:
                if isinstance(p, str):
                    segs = p.split(args[0])
                    rows[-1].append(segs[0])
                    for x in segs[1:]:
                        rows.append([x])
                else:
                    rows[-1].append(p)
            return mklist([('e', mkstr(r)) for r in rows])
        raise Unsupported('str.%s on symbolic string' % name)

    def list_method(self, o, name, args, kwargs):
        symbolic = isinstance(o, SList) and o.parts is not None
        mutators = ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'clear')
        if name in mutators:
            self.note_write(o)
        if name == 'append':
            if symbolic:
                o.parts.append(('e', args[0]))
            else:
                list.append(o, args[0])
            return None
        if name == 'extend':
            a = args[0]
            if isinstance(a, (SList,)) and a.parts is not None:
                new = list_parts(a)
            elif isinstance(a, PyIter):
                new = [('e', x) for x in a.rest()]
            elif isinstance(a, (Sym, PMap)):
                raise Unsupported('extend')
            else:
                new = [('e', x) for x in (list(self.iterate(a)))]
            if symbolic or any(k != 'e' for k, _ in new):
                if not isinstance(o, SList):
                    raise Unsupported('unbounded content into native list')
                o.set_parts(o.get_parts() + new)
            else:
                list.extend(o, [v for _, v in new])
            return None
        if name == 'insert':
            k, v = args
            if symbolic:
                if isinstance(k, int) and 0 <= k <= len(o.parts) and all(p[0] == 'e' for p in o.parts[:k]):
                    o.parts.insert(k, ('e', v))
                    return None
                kz = self.to_z3(k) if isinstance(k, (int, SInt)) else None
                if kz is not None:
                    n = _b_len(self, [o], {}).expr
                    if self.eng.check(z3.Not(kz == n)) == z3.unsat:
                        o.set_parts(o.get_parts() + [('e', v)])
                        return None
                    if self.eng.check(z3.Not(kz == 0)) == z3.unsat:
                        o.set_parts([('e', v)] + o.get_parts())
                        return None
                raise Unsupported('insert into unbounded list')
            if isinstance(k, SInt):
                raise Unsupported('insert at symbolic index')
            list.insert(o, k, v)
            return None
        if name == 'reverse':
            if symbolic:
                new = []
                for k, v in reversed(o.parts):
                    if k == 'e':
                        new.append((k, v))
                    else:
                        e = v.seqexpr()
                        if e is None:
                            new.append((k, reverse_seg(v)))
                        else:
                            new.append((k, SeqSeg(REV_S(e) if e.sort() == SeqStr else REV_V(e))))
                o.set_parts(new)
                return None
            list.reverse(o)
            return None
        if name == 'clear':
            o.set_parts([]) if isinstance(o, SList) else list.clear(o)
            return None
        if name == 'copy':
            return mklist(list_parts(o))
        if name == 'pop':
            if symbolic:
                k = args[0] if args else -1
                if k == -1 and o.parts[-1][0] == 'e':
                    v = o.parts[-1][1]
                    o.set_parts(o.parts[:-1])
                    return v
                if k == 0 and o.parts[0][0] == 'e':
                    v = o.parts[0][1]
                    o.set_parts(o.parts[1:])
                    return v
                raise Unsupported('pop from unbounded list')
            return list.pop(o, *args)
        if name in ('remove', 'index', 'count') and (symbolic or deep_sym(o) or deep_sym(args)):
            if symbolic:
                raise Unsupported('list.%s on unbounded list' % name)
            n = 0
            for ix in range(list.__len__(o)):
                if self.truth(self.as_bool(self.sym_eq(list.__getitem__(o, ix), args[0]))):
                    if name == 'remove':
                        list.__delitem__(o, ix)
                        return None
                    if name == 'index':
                        return ix
                    n += 1
            if name == 'count':
                return n
            raise ValueError('not in list')
        if name == 'sort':
            if symbolic and not args and not kwargs and len(o.parts) == 1 and hasattr(o.parts[0][1], 'sorted_seg'):
                o.set_parts([('s', o.parts[0][1].sorted_seg(self.eng))])
                return None
            if symbolic or deep_sym(o):
                raise Unsupported('sort of symbolic list')
            list.sort(o, *args, **kwargs)
            return None
        if name == '__len__':
            return BUILTIN_HANDLERS[len](self, [o], {})
        if symbolic:
            raise Unsupported('list.%s on unbounded list' % name)
        return getattr(list, name)(o, *args, **kwargs)

    def pmap_method(self, o, name, args, kwargs):
        if name == 'get':
            kz = self.to_z3(args[0])
            if self.eng.decide(z3.Select(o.present, kz)):
                return self.pmap_wrap(o, z3.Select(o.value, kz))
            return args[1] if len(args) > 1 else None
        if name == 'setdefault':
            kz = self.to_z3(args[0])
            if not self.eng.decide(z3.Select(o.present, kz)):
                self.setitem(o, args[0], args[1] if len(args) > 1 else None)
            return self.getitem(o, args[0])
        if name == 'clear':
            self.note_write(o)
            o.present = z3.K(o.ksort, z3.BoolVal(False))
            return None
        if name == 'pop':
            v = None
            kz = self.to_z3(args[0])
            if self.eng.decide(z3.Select(o.present, kz)):
                v = self.pmap_wrap(o, z3.Select(o.value, kz))
                self.delitem(o, args[0])
                return v
            if len(args) > 1:
                return args[1]
            raise KeyError('symbolic')
        if name == '__contains__' or name == 'has_key':
            return SBool(z3.Select(o.present, self.to_z3(args[0])))
        if name in ('items', 'keys', 'values') and hasattr(o, 'enum'):
            return o.enum(self.eng, name)
        if name == 'copy':
            return o.copy()
        raise Unsupported('map.%s' % name)

    def dict_method(self, o, name, args, kwargs):
        if name in ('clear', 'pop', 'popitem', 'setdefault', 'update', '__setitem__', '__delitem__'):
            self.note_write(o)
        if name in ('get', 'pop', 'setdefault') and deep_sym(args[0]):
            try:
                v = self.getitem(o, args[0])
            except KeyError:
                if name == 'get':
                    return args[1] if len(args) > 1 else None
                raise Unsupported('dict.%s with symbolic key' % name)
            if name == 'get':
                return v
            raise Unsupported('dict.%s with symbolic key' % name)
        if name in ('items', 'keys', 'values') :
            return mklist([('e', x) for x in list(getattr(o, name)())])
        if name == 'update' and args and deep_sym(list(args[0])):
            raise Unsupported('dict.update')
        return getattr(o, name)(*args, **kwargs)


class PyIter(object):
    """iterator over an SList made by evaluated code"""

    def __init__(self, l):
        self.l = l
        self.pos = 0

    def next(self):
        if isinstance(self.l, SList) and self.l.parts is not None:
            raise Unsupported('iterator over unbounded list')
        if self.pos >= list.__len__(self.l):
            raise StopIteration
        v = list.__getitem__(self.l, self.pos)
        self.pos += 1
        return v

    def rest(self):
        out = []
        while True:
            try:
                out.append(self.next())
            except StopIteration:
                return out

    def drain(self):
        while True:
            try:
                v = self.next()
            except StopIteration:
                return
            yield v


class _Opaque(object):
    """wraps a symbolic value inside an exception's arguments"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '<symbolic>'
    __str__ = __repr__


def reverse_seg(seg):
    n = seg.length()
    r = RecSeg('rev', n, lambda eng, i: seg.element(eng, n - 1 - i))
    r.base = seg
    return r


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False
    except Unsupported:
        return False


def _fname(fn):
    return '%s:%s' % (fn.__module__, fn.__qualname__)


def _static_lookup(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            v = k.__dict__[name]
            if isinstance(v, staticmethod):
                return v.__func__
            return v
    return None


def _as_native(f):
    def wrapper(*a, **k):
        return f.interp.call_ifunc(f, list(a), dict(k))
    wrapper.__name__ = f.__name__
    wrapper._ifunc = f
    wrapper.__module__ = 'pyvc.generated'
    return wrapper


# ------------------------------------------------------------------ builtins
def _b_len(ip, args, kw):
    o, = args
    if isinstance(o, SStr):
        return SInt(z3.Length(o.expr()))
    if isinstance(o, SList) and o.parts is not None:
        n = sum(1 for k, _ in o.parts if k == 'e')
        e = z3.IntVal(n)
        for k, v in o.parts:
            if k == 's':
                e = e + v.length()
        return SInt(z3.simplify(e))
    if isinstance(o, (Sym, PMap)):
        raise Unsupported('len')
    m = _static_lookup(type(o), '__len__')
    if isinstance(m, types.FunctionType) and find_def(m) is not None:
        return ip.call(m, [o], {})
    return len(o)


def _isinst(o, t):
    if isinstance(t, tuple):
        return any(_isinst(o, x) for x in t)
    if isinstance(o, SStr):
        return issubclass(str, t)
    if isinstance(o, SInt):
        return issubclass(int, t)
    if isinstance(o, SBool):
        return issubclass(bool, t)
    if isinstance(o, PMap):
        return issubclass(dict, t)
    if isinstance(o, SVal):
        return any(issubclass(c, t) for c in o.isa)
    if isinstance(o, Poison):
        raise Unsupported('isinstance of poison')
    return isinstance(o, t)


def _b_isinstance(ip, args, kw):
    return _isinst(*args)


def _b_str(ip, args, kw):
    if not args:
        return ''
    return ip.str_of(args[0])


def _b_repr(ip, args, kw):
    return ip.repr_of(args[0])


def _b_list(ip, args, kw):
    if not args:
        return SList()
    a = ip.pmap_keys(args[0])
    if isinstance(a, SList) and a.parts is not None:
        return mklist(a.parts)
    if isinstance(a, PyIter):
        return SList(a.rest())
    return SList(list(ip.iterate(a)))


def _b_tuple(ip, args, kw):
    if not args:
        return ()
    if isinstance(args[0], SList) and args[0].parts is not None:
        raise Unsupported('tuple of unbounded list')
    return tuple(ip.iterate(args[0]))


def _b_range(ip, args, kw):
    if not any(isinstance(a, SInt) for a in args):
        return range(*args)
    lo, hi, st = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        lo, hi, st = args
    if st not in (1, -1):
        raise Unsupported('range step')
    return mklist([('s', RangeSeg(ip.to_z3(lo), ip.to_z3(hi), st))])


def _b_enumerate(ip, args, kw):
    l = args[0]
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if isinstance(l, SList) and l.parts is not None:
        off = ip.to_z3(start)
        parts = []
        for k, v in l.parts:
            if k == 'e':
                parts.append(('e', (SInt(z3.simplify(off)), v)))
                off = off + 1
            else:
                seg = RecSeg('enum', v.length(), lambda eng, i, v=v, off=off: (SInt(off + i), v.element(eng, i)))
                seg.base = v
                parts.append(('s', seg))
                off = off + v.length()
        return mklist(parts)
    return SList(enumerate(ip.iterate(l), start))


def _b_zip(ip, args, kw):
    if any(isinstance(a, SList) and a.parts is not None for a in args):
        lists = [list_parts(a) for a in args]
        if all(len(x) == len(lists[0]) and [p[0] for p in x] == [p[0] for p in lists[0]] for x in lists):
            parts = []
            for tup in zip(*lists):
                if tup[0][0] == 'e':
                    parts.append(('e', tuple(v for _, v in tup)))
                else:
                    n0 = tup[0][1].length()
                    for _, s in tup[1:]:
                        if not ip.eng.decide(s.length() == n0):
                            raise Unsupported('zip of different lengths')
                    segs = [s for _, s in tup]
                    r = RecSeg('zip', n0, lambda eng, i, segs=segs: tuple(s.element(eng, i) for s in segs))
                    r.base = segs[0]
                    parts.append(('s', r))
            return mklist(parts)
        raise Unsupported('zip')
    return SList(zip(*[list(ip.iterate(a)) for a in args]))


def _b_reversed(ip, args, kw):
    l = args[0]
    if isinstance(l, list):
        r = mklist(list_parts(l))
        ip.list_method(r, 'reverse', [], {})
        return r
    return SList(reversed(list(ip.iterate(l))))


def _b_sorted(ip, args, kw):
    l = ip.pmap_keys(args[0])
    rev = kw.get('reverse', False)
    if isinstance(l, SList) and l.parts is not None:
        r = mklist(l.parts)
        ip.list_method(r, 'sort', [], {k: v for k, v in kw.items() if k != 'reverse'})
        if ip.truth(rev):
            ip.list_method(r, 'reverse', [], {})
        return r
    xs = list(ip.iterate(l))
    if deep_sym(xs):
        raise Unsupported('sorted of symbolic values')
    kw = dict(kw)
    if isinstance(kw.get('key'), (IFunc,)):
        f = kw['key']
        kw['key'] = lambda x: f(x)
    return SList(sorted(xs, **kw))


def _b_bool(ip, args, kw):
    if not args:
        return False
    return ip.as_bool(ip.truth_expr(args[0]))


def _b_getattr(ip, args, kw):
    try:
        return ip.getattr(args[0], args[1])
    except AttributeError:
        if len(args) > 2:
            return args[2]
        raise


def _b_hasattr(ip, args, kw):
    try:
        o = args[0]
        if isinstance(o, SVal):
            if args[1] in o.attrs:
                return True
            raise Unsupported('hasattr of opaque')
        if isinstance(o, (SStr,)):
            return hasattr('', args[1])
        ip.getattr(o, args[1])
        return True
    except AttributeError:
        return False


def _b_setattr(ip, args, kw):
    ip.setattr(*args)


def _b_any(ip, args, kw):
    for x in ip.iterate(args[0]):
        if ip.truth(x):
            return True
    return False


def _b_all(ip, args, kw):
    l = args[0]
    if isinstance(l, SList) and l.parts is not None:
        # all elements of an unbounded part: an arbitrary element
        for k, v in l.parts:
            if k == 'e':
                if not ip.truth(v):
                    return False
            else:
                if ip.eng.choose(2, 'all') == 1:
                    i = z3.Int(ip.eng.fresh_name('ai'))
                    ip.eng.assume(z3.And(i >= 0, i < v.length()))
                    x = v.element(ip.eng, i)
                    t = ip.truth_expr(x)
                    if t is True:
                        raise PathEnd()
                    ip.eng.assume(ip.neg(t))
                    if not ip.eng.feasible():
                        raise PathEnd()
                    return False
                # else: holds for every element
                c = getattr(v, 'all_true', None)
        return True
    for x in ip.iterate(l):
        if not ip.truth(x):
            return False
    return True


def _b_type(ip, args, kw):
    if len(args) == 1:
        o = args[0]
        if isinstance(o, SStr):
            return str
        if isinstance(o, SInt):
            return int
        if isinstance(o, SBool):
            return bool
        if isinstance(o, SList):
            return list
        if isinstance(o, Sym):
            raise Unsupported('type of opaque')
        return type(o)
    return type(*args)


def _b_int(ip, args, kw):
    if args and isinstance(args[0], SInt):
        return args[0]
    if args and isinstance(args[0], Sym):
        raise Unsupported('int()')
    return int(*args)


def _b_iter(ip, args, kw):
    l = args[0]
    if isinstance(l, list):
        return PyIter(l)
    return ip.iterate(l)


def _b_next(ip, args, kw):
    it = args[0]
    try:
        if isinstance(it, PyIter):
            return it.next()
        return next(it)
    except StopIteration:
        if len(args) > 1:
            return args[1]
        raise


def _b_set(ip, args, kw):
    if not args:
        return set()
    return set(ip.key(x) for x in ip.iterate(args[0]))


def _b_frozenset(ip, args, kw):
    return frozenset(_b_set(ip, args, kw))


def _b_dict(ip, args, kw):
    d = {}
    if args:
        a = args[0]
        if isinstance(a, PMap):
            return a.copy()
        if isinstance(a, dict):
            d.update(a)
        else:
            for k, v in ip.iterate(a):
                d[ip.key(k)] = v
    d.update(kw)
    return d


def _b_noop(ip, args, kw):
    return None


def _b_min(ip, args, kw):
    if deep_sym(args):
        raise Unsupported('min/max')
    return min(*args, **kw)


def _b_max(ip, args, kw):
    if deep_sym(args):
        raise Unsupported('min/max')
    return max(*args, **kw)


def _b_sum(ip, args, kw):
    acc = args[1] if len(args) > 1 else 0
    for x in ip.iterate(args[0]):
        acc = ip.binop(ast.Add, acc, x)
    return acc


def _b_issubclass(ip, args, kw):
    return issubclass(*args)


def _b_id(ip, args, kw):
    if isinstance(args[0], Sym):
        raise Unsupported('id')
    return id(args[0])


def _b_copy(ip, args, kw):
    o = args[0]
    if isinstance(o, Sym):
        return o
    if isinstance(o, list):
        return mklist(list_parts(o))
    if isinstance(o, PMap):
        return o.copy()
    import copy
    return copy.copy(o)


def _b_map(ip, args, kw):
    if len(args) == 2 and isinstance(args[1], SList) and args[1].parts is not None:
        return ip.map_over(args[1], lambda x: ip.call(args[0], [x], {}))
    return mklist([('e', ip.call(args[0], list(t), {})) for t in zip(*[list(ip.iterate(a)) for a in args[1:]])])


def _b_super(ip, args, kw):
    return super(*args)


def _b_callable(ip, args, kw):
    return callable(args[0])


class CodePoint(SInt):
    """the code of one character: never negative"""
    __slots__ = ()
    code = True


class CharMatch(object):
    """match of one character of a class"""
    _pyvc_model = True

    def __init__(self, atom):
        self._atom = atom

    def group(self, k=0):
        return SStr([self._atom])

    def __getitem__(self, k):
        return SStr([self._atom])


def char_class(pattern):
    """(negated, chars) of a pattern that matches exactly one character of a class"""
    try:
        import re._parser as sre
    except ImportError:
        import sre_parse as sre
    items = list(sre.parse(pattern))
    if len(items) != 1:
        return None
    op, arg = items[0]
    name = str(op)
    if name == 'LITERAL':
        return False, frozenset([chr(arg)])
    if name == 'NOT_LITERAL':
        return True, frozenset([chr(arg)])
    if name != 'IN':
        return None
    neg, cs = False, set()
    for o, a in arg:
        o = str(o)
        if o == 'NEGATE':
            neg = True
        elif o == 'LITERAL':
            cs.add(chr(a))
        elif o == 'RANGE' and a[1] - a[0] < 2000:
            cs.update(chr(x) for x in range(a[0], a[1] + 1))
        else:
            return None
    return neg, frozenset(cs)


def _b_re_sub(ip, args, kw):
    if not deep_sym(args) and not kw and not isinstance(args[1], IFunc):
        import re
        return re.sub(*args)
    if len(args) != 3 or kw or not isinstance(args[0], str):
        raise Unsupported('re.sub')
    pc = char_class(args[0])
    if pc is None:
        raise Unsupported('re.sub with %r' % args[0])
    neg, chars = pc
    ip.eng.counter['resub'] = ip.eng.counter.get('resub', 0) + 1

    def repl(atom):
        if callable(args[1]) or isinstance(args[1], IFunc):
            return ip.pieces(ip.call(args[1], [CharMatch(atom)], {}))
        if isinstance(args[1], str) and '\\' not in args[1]:
            return [args[1]]
        raise Unsupported('re.sub replacement')
    out = []
    for p in ip.pieces(args[2]):
        if isinstance(p, str):
            for c in p:
                out.extend(repl(Atom(z3.StringVal(c), cs=(True, frozenset(c)))) if (c in chars) != neg else [c])
            continue
        cs = p.cs
        # the characters of p that are matched
        if cs[0]:
            hit = frozenset(c for c in cs[1] if (c in chars) != neg)
            if not hit:
                out.append(p)
                continue
            hitcs, keep = (True, hit), (True, cs[1] - hit)
        elif neg:
            hitcs, keep = (False, chars | cs[1]), (True, chars - cs[1])
        else:
            hitcs, keep = (True, chars - cs[1]), (False, cs[1] | chars)
        a = Atom(z3.String(ip.eng.fresh_name('matched')), cs=hitcs)
        for q in repl(a):
            if isinstance(q, str):
                keep = cs_add(keep, frozenset(q))
            elif q.cs[0]:
                keep = cs_add(keep, q.cs[1])
            else:
                # anything but q.cs[1]
                keep = (False, q.cs[1] - keep[1] if keep[0] else q.cs[1] & keep[1])
        f = z3.Function('re.sub %r' % args[0], StrSort, StrSort)
        out.append(Atom(f(p.expr), cs=keep))
    return mkstr(out)


def _b_ord(ip, args, kw):
    if isinstance(args[0], str):
        return ord(args[0])
    ps = ip.pieces(args[0])
    if len(ps) == 1:
        return CodePoint(z3.Int(ip.eng.fresh_name('code')))
    raise Unsupported('ord')


import re as _re
import copy as _copy
BUILTIN_HANDLERS = {
    _re.sub: _b_re_sub, ord: _b_ord,
    len: _b_len, isinstance: _b_isinstance, str: _b_str, repr: _b_repr, list: _b_list, tuple: _b_tuple,
    range: _b_range, enumerate: _b_enumerate, zip: _b_zip, reversed: _b_reversed, sorted: _b_sorted,
    bool: _b_bool, getattr: _b_getattr, hasattr: _b_hasattr, setattr: _b_setattr, any: _b_any, all: _b_all,
    type: _b_type, int: _b_int, iter: _b_iter, next: _b_next, set: _b_set, frozenset: _b_frozenset,
    dict: _b_dict, print: _b_noop, min: _b_min, max: _b_max, sum: _b_sum, issubclass: _b_issubclass,
    id: _b_id, _copy.copy: _b_copy, map: _b_map, super: _b_super, callable: _b_callable,
    warnings.warn: _b_noop, traceback.extract_stack: lambda ip, a, k: [],
}
