"""Deductive checker for emitted C functions.

Every path of a function is evaluated symbolically; Python C-API functions and the
other generated functions are replaced by contracts; integers are z3 integers with C
conversions; loops are cut (the typestate at the head has to be re-established by the
body).  Obligations are checked on every path; the result also keeps each path's event
list for property-specific postconditions."""
import re
import z3
from .parser import N, ParseError, Parser, Func
from .ctypes_ import norm, strip_const, base_int, irange
from . import capi


class Cut(Exception):
    """path ends here (infeasible or loop cut)"""


class Ret(Exception):
    def __init__(self, v, line):
        self.v, self.line = v, line


class Thrown(Exception):
    def __init__(self, index, tnode, value):
        self.index, self.tnode, self.value = index, tnode, value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Fatal(Exception):
    """call of a function that does not return"""


class Unmodelled(Exception):
    pass


class V(object):
    """a C value; 'id' identifies the object/value independently of casts"""
    __slots__ = ('id', 'text', 'ty', 'z', 'addr', 'lit', 'origin', 'truth0')

    def __init__(self, id, text, ty='', z=None, addr=None, lit=None, origin=None, truth0=None):
        self.id, self.text, self.ty, self.z, self.addr, self.lit, self.origin = id, text, ty, z, addr, lit, origin
        self.truth0 = truth0

    def __repr__(self):
        return self.text


class Cell(object):
    def __init__(self, name, ty, val, line, arr=None, kind='local', scope=0):
        self.name, self.ty, self.val, self.line, self.arr, self.kind = name, ty, val, line, arr, kind
        self.bound = val        # what a reference is bound to


class Ev(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join('%s=%r' % (k, v) for k, v in sorted(self.__dict__.items()) if k not in ('kind', 'node', 'st')))


class Path(object):
    def __init__(self):
        self.events = []
        self.end = None          # 'return', 'fatal', 'cut', 'fall'
        self.ret = None
        self.ret_text = None
        self.line = 0
        self.err = False
        self.gil = None
        self.refs = {}
        self.conds = []
        self.eqs = []            # pointers compared: (value, value, equal)
        self.zpc = []
        self.facts = {}
        self.params = {}

    def calls(self, name=None):
        return [e for e in self.events if e.kind == 'call' and (name is None or e.name == name or callable(name) and name(e.name))]


class Problem(object):
    def __init__(self, kind, func, line, msg):
        self.kind, self.func, self.line, self.msg = kind, func, line, msg

    def key(self):
        return (self.kind, self.func, self.msg)

    def __repr__(self):
        return '[%s] %s:%d: %s' % (self.kind, self.func, self.line, self.msg)


def show(n):
    if n is None:
        return ''
    o, a = n.op, n.a
    if o == 'name' or o == 'num' or o == 'chr':
        return a[0]
    if o == 'str':
        return '"%s"' % a[0].replace('\n', '\\n')
    if o == 'paren':
        return '(%s)' % show(a[0])
    if o == 'call':
        return '%s(%s)' % (show(a[0]), ', '.join(show(x) for x in a[1]))
    if o == 'member':
        return '%s%s%s' % (show(a[0]), a[1], a[2])
    if o == 'index':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if o == 'un':
        return a[0] + show(a[1])
    if o == 'post':
        return show(a[1]) + a[0]
    if o == 'bin':
        return '%s %s %s' % (show(a[1]), a[0], show(a[2]))
    if o == 'assign':
        return '%s %s %s' % (show(a[1]), a[0], show(a[2]))
    if o == 'cond':
        return '%s ? %s : %s' % tuple(show(x) for x in a)
    if o == 'cast':
        return '(%s) %s' % (norm(a[0]), show(a[1]))
    if o == 'xcast':
        return '%s<%s>(%s)' % (a[0], norm(a[1]), show(a[2]))
    if o == 'new':
        return 'new %s(%s)' % (norm(a[0]), ', '.join(show(x) for x in a[1]))
    if o == 'pnew':
        return 'new (%s) %s(%s)' % (show(a[0]), norm(a[1]), ', '.join(show(x) for x in a[2]))
    if o == 'newarray':
        return 'new %s[]' % norm(a[0])
    if o == 'delete':
        return 'delete %s' % show(a[0])
    if o == 'sizeof':
        return 'sizeof(%s)' % (a[0] if isinstance(a[0], str) else show(a[0]))
    if o == 'typeid':
        return 'typeid(%s)' % show(a[0])
    if o == 'init':
        return '{%s}' % ', '.join(show(x) for x in a[0])
    if o == 'construct':
        return '%s(%s)' % (norm(a[0]), ', '.join(show(x) for x in a[1]))
    if o == 'comma':
        return '%s, %s' % (show(a[0]), show(a[1]))
    if o == 'throw':
        return 'throw %s' % show(a[0])
    return o


def strip_parens(n):
    while n is not None and n.op == 'paren':
        n = n.a[0]
    return n


def unparen_cast(n):
    while n is not None and n.op in ('paren', 'cast', 'xcast'):
        n = n.a[0] if n.op == 'paren' else (n.a[1] if n.op == 'cast' else n.a[2])
    return n


class Ctx(object):
    """what is known outside the function: the translation unit and user-declared names"""
    def __init__(self, unit, known=(), member_types=None, func_types=None, sigs=None, enums=()):
        self.unit = unit
        # directions of the reference parameters of user functions: name -> [set('I'), set('O'), ...] or None
        self.sigs = sigs or {}
        self.enums = set(enums)      # enumeration types: int sized on this platform
        self.known = set(known)
        self.member_types = member_types or {}
        self.func_types = func_types or {}
        self.names = set(f.name for f in unit.funcs) | set(f.name for f in unit.protos) | set(v.name for v in unit.vars) | set(unit.types)
        self.first_line = {}
        for (k, nm, line) in unit.events:
            self.first_line.setdefault(nm, line)
        # last component / first component of user names
        for k in list(self.known):
            for part in re.split(r'::|[<>, ]+', k):
                if part:
                    self.known.add(part)


MAXPATHS = 6000


class Exec(object):
    def __init__(self, ctx, func, entry_gil='held', timeout=3000):
        self.ctx, self.func = ctx, func
        self.entry_gil = entry_gil
        self.problems = []
        self._seen = set()
        self.paths = []
        self.zchecks = 0
        self.obligations = 0
        self.timeout = timeout
        self.checked = {}

    # --- exploration
    def run(self):
        body = self.func.body(self.ctx.unit.types)
        pending = [[]]
        while pending:
            self.trace = pending.pop()
            self.pos = 0
            self.new = []
            if len(self.paths) > MAXPATHS:
                raise Unmodelled('too many paths in %s' % self.func.name)
            p = self.one(body)
            self.paths.append(p)
            for (d, alts) in self.new:
                for a in alts:
                    pending.append(self.trace[:d] + [a])
        return self

    def choose(self, n):
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            c = 0
            self.trace.append(0)
            if n > 1:
                self.new.append((len(self.trace) - 1, list(range(1, n))))
        self.pos += 1
        return c

    def one(self, body):
        self.p = Path()
        self.nid = 0
        self.scopes = [{}]
        self.heap = {}
        self.facts = {}
        self.preds = {}
        self.gil = self.entry_gil
        self.gilstack = []
        self.saved = None
        self.refs = {}
        self.err = False
        self.zpc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.trys = []
        self.line = self.func.line
        self.labels = {}
        for ty, nm in self.func.params:
            if nm is None:
                continue
            if nm in self.scopes[0]:
                self.problem('declared-twice', 'parameter %s' % nm)
            tyn = norm(ty)
            if tyn.endswith('&'):
                tyn = tyn.rstrip('&').strip()
            v = self.fresh_int(nm, tyn) if base_int(tyn) and strip_const(tyn) != 'bool' else self.fresh(nm, tyn)
            v.origin = ('param', nm)
            if nm == 'self' or nm == 'args':
                self.facts[v.id] = True
            self.scopes[0][nm] = Cell(nm, tyn, v, self.func.line, kind='param')
            self.p.params[nm] = v
        if self.func.cls:
            th = self.fresh('this', self.func.cls + '*')
            self.facts[th.id] = True
            self.this = th
        else:
            m = re.match(r'(.*)::~?\w+$', self.func.name)
            self.this = None
            if m:
                self.this = self.fresh('this', m.group(1) + '*')
                self.facts[self.this.id] = True
        p = self.p
        try:
            self.scopes.append({})
            # C++ forbids redeclaring a parameter in the outermost block
            self.outer = self.scopes[-1]
            for s in body.a[0]:
                self.stmt(s)
            p.end = 'fall'
            p.line = self.line
        except Ret as r:
            p.end, p.ret, p.line = 'return', r.v, r.line
        except Cut:
            p.end = 'cut'
        except Fatal:
            p.end = 'fatal'
        except Thrown as t:
            p.end = 'throw'
        p.err, p.gil, p.refs, p.zpc, p.facts = self.err, self.gil, dict(self.refs), list(self.zpc), dict(self.facts)
        p.saved = self.saved
        p.gilstack = list(self.gilstack)
        p.heap = self.heap
        p.scopes = self.scopes
        return p

    # --- helpers
    def problem(self, kind, msg, line=None):
        key = (kind, msg)
        if key not in self._seen:
            self._seen.add(key)
            pr = Problem(kind, self.func.name, line or self.line, msg)
            self.problems.append(pr)

    def oblige(self, kind, ok, msg, line=None):
        """an obligation at this program point on this path"""
        self.obligations += 1
        self.checked[kind] = self.checked.get(kind, 0) + 1
        if not ok:
            self.problem(kind, msg() if callable(msg) else msg, line)
        return ok

    def fresh(self, text, ty='', z=None, **kw):
        self.nid += 1
        return V(self.nid, text, ty, z, **kw)

    def ev(self, kind, **kw):
        e = Ev(kind, line=self.line, gil=self.gil, **kw)
        e.seq = len(self.p.events)
        self.p.events.append(e)
        return e

    def assume(self, c):
        self.zpc.append(c)
        self.solver.add(c)

    def sat(self, *cs):
        self.zchecks += 1
        self.solver.push()
        self.solver.add(*cs)
        r = self.solver.check()
        self.solver.pop()
        return r

    def decide_z(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            v = self.trace[self.pos] == 0
            self.pos += 1
            self.assume(cond if v else z3.Not(cond))
            return v
        t = self.sat(cond) != z3.unsat
        f = self.sat(z3.Not(cond)) != z3.unsat
        if t and f:
            self.trace.append(0)
            self.new.append((len(self.trace) - 1, [1]))
            v = True
        else:
            v = t
            self.trace.append(0 if t else 1)
        self.pos += 1
        self.assume(cond if v else z3.Not(cond))
        return v

    def fact(self, v):
        if v.truth0 is not None:
            return v.truth0
        if v.id in self.facts:
            return self.facts[v.id]
        return None

    def truth(self, v):
        """decide whether a value is true on this path"""
        if v.lit is not None and v.z is None:
            return bool(v.lit)
        if v.z is not None:
            return self.decide_z(v.z != 0)
        f = self.fact(v)
        if f is not None:
            return f
        if v.origin and v.origin[0] == 'maybe':
            pass
        c = self.choose(2) == 0
        self.facts[v.id] = c
        hook = v.origin
        if hook and hook[0] == 'api' and not c:
            # the API call failed: error indicator set
            if hook[1]:
                self.err = True
        return c

    def int_of(self, ty):
        return base_int(ty)

    def conv(self, v, ty):
        """value converted to C type ty (integers only change)"""
        bi = base_int(ty)
        if bi is None:
            if v.ty != ty:
                return V(v.id, v.text, ty or v.ty, v.z, v.addr, v.lit, v.origin, v.truth0)
            return v
        if strip_const(norm(ty)) == 'bool':
            if v.z is not None:
                return V(v.id, v.text, ty, z3.If(v.z != 0, z3.IntVal(1), z3.IntVal(0)), None, None, v.origin, v.truth0)
            return V(v.id, v.text, ty, None, None, v.lit, v.origin, v.truth0)
        z = v.z
        if z is None:
            if v.lit is None and base_int(v.ty) is None and v.truth0 is None and v.id not in self.facts:
                self.nid += 1
                z = z3.Int('%s#%d' % (re.sub(r'\W+', '_', v.text)[:30], self.nid))
                lo, hi = irange(*bi)
                self.assume(z3.And(z >= lo, z <= hi))
                return V(v.id, v.text, ty, z, None, None, v.origin)
            return V(v.id, v.text, ty, z, v.addr, v.lit, v.origin, v.truth0)
        lo, hi = irange(*bi)
        src = base_int(v.ty)
        if src is not None:
            slo, shi = irange(*src)
            if slo >= lo and shi <= hi:
                return V(v.id, v.text, ty, z, None, None, v.origin)
        if bi[0] <= 16 and strip_const(norm(ty)) != 'char':
            self.oblige('narrow', self.sat(z3.Or(z < lo, z > hi)) == z3.unsat,
                        lambda: 'converting %s to %s can change its value' % (v.text, ty))
        if z3.is_int_value(z):
            x = z.as_long()
            m = 1 << bi[0]
            x = (x - lo) % m + lo
            return V(v.id, v.text, ty, z3.IntVal(x), None, None, v.origin)
        m = z3.IntVal(1 << bi[0])
        return V(v.id, v.text, ty, (z - lo) % m + lo, None, None, v.origin)

    def fresh_int(self, text, ty):
        bi = base_int(ty)
        self.nid += 1
        z = z3.Int('%s#%d' % (re.sub(r'\W+', '_', text)[:30], self.nid))
        if bi:
            lo, hi = irange(*bi)
            self.assume(z3.And(z >= lo, z <= hi))
        return V(self.nid, text, ty, z)

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    # --- statements
    def stmt(self, s):
        if s is None:
            return
        self.line = s.line or self.line
        o, a = s.op, s.a
        if o == 'block':
            self.scopes.append({})
            try:
                for x in a[0]:
                    self.stmt(x)
            finally:
                self.scopes.pop()
        elif o == 'expr':
            self.eval(a[0])
        elif o == 'decl':
            for (ty, name, arr, init) in a[0]:
                self.declare(ty, name, arr, init, s.line)
        elif o == 'if':
            c = self.cond(a[0])
            self.p.conds.append((show(a[0]), c, s.line))
            self.ev('branch', cond=show(a[0]), taken=c, node=a[0])
            self.scopes.append({})
            try:
                self.stmt(a[1] if c else a[2])
            finally:
                self.scopes.pop()
        elif o == 'return':
            v = None
            self.p.ret_text = show(a[0]) if a[0] is not None else ''
            if a[0] is not None:
                v = self.eval(a[0])
                v = self.conv(v, norm(self.func.ret)) if base_int(self.func.ret) else v
            self.line = s.line
            self.ev('return', value=v, text=self.p.ret_text)
            raise Ret(v, s.line)
        elif o == 'while':
            self.loop(None, a[0], None, a[1], s.line)
        elif o == 'dowhile':
            self.loop(None, None, None, N('block', [a[0]]), s.line)
        elif o == 'for':
            self.scopes.append({})
            try:
                self.stmt(a[0])
                self.loop(None, a[1], a[2], a[3], s.line)
            finally:
                self.scopes.pop()
        elif o == 'try':
            self.trystmt(s)
        elif o == 'switch':
            self.switch(s)
        elif o == 'break':
            raise Brk()
        elif o == 'continue':
            raise Cont()
        elif o in ('empty', 'label', 'case', 'default'):
            pass
        elif o == 'goto':
            raise Unmodelled('goto')
        else:
            raise Unmodelled('statement %s' % o)

    def switch(self, s):
        v = self.eval(s.a[0])
        body = s.a[1]
        items = body.a[0] if body.op == 'block' else [body]
        starts = [i for i, x in enumerate(items) if x.op in ('case', 'default')]
        has_default = any(items[i].op == 'default' for i in starts)
        n = len(starts) + (0 if has_default else 1)
        c = self.choose(n)
        if c < len(starts):
            it = items[starts[c]]
            self.ev('case', text=show(it.a[0]) if it.op == 'case' else 'default', value=v)
            self.p.conds.append(('switch ' + (show(it.a[0]) if it.op == 'case' else 'default'), True, s.line))
            self.scopes.append({})
            try:
                for x in items[starts[c]:]:
                    self.stmt(x)
            except Brk:
                pass
            finally:
                self.scopes.pop()

    def declare(self, ty, name, arr, init, line):
        tyn = norm(ty)
        sc = self.scopes[-1]
        self.oblige('declared-twice', name not in sc, lambda: 'variable %s declared twice' % name, line)
        if sc is self.outer:
            self.oblige('declared-twice', name not in self.scopes[0], lambda: 'local %s redeclares a parameter' % name, line)
        self.check_type(tyn, line)
        v = None
        if init is not None:
            if init.op == 'init':
                v = self.initlist(init)
            elif init.op == 'construct':
                args = [self.eval(x) for x in init.a[1]]
                self.ev('construct', ty=tyn, name=name, args=args)
                v = self.fresh(name, tyn, origin=('construct', args))
            else:
                # the name is in scope in its own initialiser, but unset
                v = self.eval(init)
        if v is None:
            v = self.fresh(name, tyn, origin=('uninit', name)) if not arr else self.fresh(name, tyn + '*')
            if not arr and self.is_class_type(tyn):
                v.origin = None
        else:
            if arr and not v.ty:
                v.ty = tyn + '*'
            v = self.conv(v, tyn) if not arr else v
        cell = Cell(name, tyn, v, line, arr)
        if arr and init is not None and init.op == 'init':
            cell.items = [x for x in init.a[0]]
        sc[name] = cell
        self.ev('decl', name=name, ty=tyn, arr=arr, value=v, init=show(init) if init is not None else None)

    def is_class_type(self, ty):
        return '*' not in ty and base_int(ty) is None and strip_const(ty) not in ('float', 'double', 'PyGILState_STATE')

    def check_type(self, ty, line):
        pass

    def initlist(self, n):
        vs = []
        for x in n.a[0]:
            if x.op == 'init':
                vs.append(self.initlist(x))
            else:
                vs.append(self.eval(x))
        return self.fresh(show(n), '', origin=('init', vs))

    def typestate(self):
        """what a loop iteration has to re-establish"""
        return (self.gil, tuple(self.gilstack), self.saved.id if self.saved is not None else None,
                tuple(sorted((k, v) for k, v in self.refs.items() if v)))

    def assigned(self, n, out):
        if isinstance(n, N):
            if n.op == 'assign':
                l = strip_parens(n.a[1])
                if l.op == 'name':
                    out.add(l.a[0])
            if n.op in ('post',) or n.op == 'un' and n.a[0] in ('++', '--'):
                l = strip_parens(n.a[1])
                if l.op == 'name':
                    out.add(l.a[0])
            if n.op == 'un' and n.a[0] == '&':
                l = strip_parens(n.a[1])
                if l.op == 'name':
                    out.add(l.a[0])
            for x in n.a:
                self.assigned(x, out)
        elif isinstance(n, (list, tuple)):
            for x in n:
                self.assigned(x, out)
        return out

    def loop(self, init, cond, update, body, line):
        names = self.assigned([cond, update, body], set())
        for nm in names:
            c = self.lookup(nm)
            if c is not None and not c.arr:
                if base_int(c.ty) and strip_const(c.ty) != 'bool':
                    c.val = self.fresh_int(nm, c.ty)
                else:
                    c.val = self.fresh(nm, c.ty)
        self.forget_written([cond, update, body])
        ts = self.typestate()
        errs = self.err
        c = True if cond is None else self.cond(cond)
        self.ev('loop', taken=c, cond=show(cond))
        if not c:
            return
        self.scopes.append({})
        try:
            self.stmt(body)
            if update is not None:
                self.eval(update)
        except Cont:
            pass
        except Brk:
            self.scopes.pop()
            self.scopes.append({})
            return
        finally:
            self.scopes.pop()
        self.oblige('loop-invariant', self.typestate() == ts,
                    lambda: 'one loop iteration changes locks or owned references: %s' % self.describe_ts(ts), line)
        raise Cut()

    def forget_written(self, nodes):
        """heap locations a loop may write are unknown at its head"""
        fields, rest, calls = set(), [False], [False]

        def go(n):
            if isinstance(n, N):
                t = None
                if n.op == 'assign':
                    t = strip_parens(n.a[1])
                elif n.op == 'post' or n.op == 'un' and n.a[0] in ('++', '--', '&'):
                    t = strip_parens(n.a[1])
                if t is not None and t.op == 'member':
                    fields.add(t.a[2])
                elif t is not None and t.op != 'name':
                    rest[0] = True
                if n.op == 'call':
                    f = show(n.a[0])
                    if not f.startswith(('Py', '_Py')) or f.startswith(('PyObject_Call', 'PyEval')):
                        calls[0] = True
                for x in n.a:
                    go(x)
            elif isinstance(n, (list, tuple)):
                for x in n:
                    go(x)
        go(nodes)
        if calls[0]:
            self.heap = {}
            return
        for k in list(self.heap):
            if k[0] in ('*', '[]') and rest[0] or len(k) == 2 and k[1] in fields:
                del self.heap[k]

    def describe_ts(self, ts):
        now = self.typestate()
        return 'before %r, after %r' % (ts, now)

    def trystmt(self, s):
        body, catches = s.a
        depth = len(self.scopes)
        self.trys.append(catches)
        try:
            try:
                self.stmt(body)
            finally:
                self.trys.pop()
        except Thrown as t:
            if t.tnode is not catches:
                raise
            del self.scopes[depth:]
            ty, nm, blk = catches[t.index]
            self.scopes.append({})
            if nm:
                self.scopes[-1][nm] = Cell(nm, norm(ty), t.value, blk.line, kind='exc')
            self.ev('catch', ty=norm(ty), name=nm, index=t.index)
            try:
                self.stmt(blk)
            finally:
                self.scopes.pop()

    def may_throw(self, what, args=()):
        """a call of user code: fork on each exception of the innermost try"""
        if not self.trys or not self.trys[-1]:
            return
        cs = self.trys[-1]
        c = self.choose(1 + len(cs))
        if c:
            v = self.fresh('exc', norm(cs[c - 1][0]))
            self.ev('throw', ty=norm(cs[c - 1][0]), what=what, args=list(args))
            raise Thrown(c - 1, cs, v)

    # --- conditions
    def cond(self, n):
        n = strip_parens(n)
        o, a = n.op, n.a
        if o == 'un' and a[0] == '!':
            return not self.cond(a[1])
        if o == 'bin' and a[0] == '&&':
            return self.cond(a[1]) and self.cond(a[2])
        if o == 'bin' and a[0] == '||':
            return self.cond(a[1]) or self.cond(a[2])
        if o == 'bin' and a[0] in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(a[0], self.eval(a[1]), self.eval(a[2]))
        return self.truth(self.eval(n))

    def isnull(self, v):
        return v.lit == 0 and v.lit is not None and v.lit is not False or (v.lit == 0 and v.text in ('NULL', '0'))

    def compare(self, op, x, y):
        if x.z is not None and y.z is not None:
            # usual arithmetic conversions: both 32-bit int unless wider
            f = {'==': lambda p, q: p == q, '!=': lambda p, q: p != q, '<': lambda p, q: p < q,
                 '>': lambda p, q: p > q, '<=': lambda p, q: p <= q, '>=': lambda p, q: p >= q}[op]
            xz, yz = self.usual(x, y)
            return self.decide_z(f(xz, yz))
        if op in ('==', '!='):
            if y.text in ('NULL', '0') or x.text in ('NULL', '0'):
                v = x if y.text in ('NULL', '0') else y
                t = self.truth(v)
                return (not t) if op == '==' else t
            if x.id == y.id:
                return op == '=='
            key = tuple(sorted((x.id, y.id)))
            if key not in self.preds:
                self.preds[key] = self.choose(2) == 0
            r = self.preds[key]
            self.p.eqs.append((x, y, r))
            return r if op == '==' else not r
        key = (op, x.id, y.id)
        if key not in self.preds:
            self.preds[key] = self.choose(2) == 0
        r = self.preds[key]
        if x.origin and x.origin[0] == 'api' and x.origin[1] and r and op == '<':
            self.err = True
        return r

    def usual(self, x, y):
        """usual arithmetic conversions on two integer values"""
        def promote(v):
            b = base_int(v.ty) or (32, True)
            if b[0] < 32:
                return (32, True)
            return b
        bx, by = promote(x), promote(y)
        if bx == by:
            t = bx
        else:
            w = max(bx[0], by[0])
            uns = any((not b[1]) and b[0] == w for b in (bx, by))
            t = (w, not uns)

        def to(v, b):
            if z3.is_int_value(v.z):
                lo, hi = irange(*t)
                xx = v.z.as_long()
                return z3.IntVal((xx - lo) % (1 << t[0]) + lo)
            if b == t or (b[0] < t[0] and (b[1] == t[1] or not b[1])):
                return v.z
            lo, hi = irange(*t)
            return (v.z - lo) % z3.IntVal(1 << t[0]) + lo
        return to(x, bx), to(y, by)

    # --- expressions
    def eval(self, n):
        self.line = n.line or self.line
        o, a = n.op, n.a
        m = getattr(self, 'e_' + o, None)
        if m is None:
            raise Unmodelled('expression %s' % o)
        return m(n, *a)

    def e_paren(self, n, x):
        return self.eval(x)

    def e_num(self, n, t):
        if '.' in t or (('e' in t or 'f' in t) and not t.lower().startswith('0x')):
            return self.fresh(t, 'double', lit=float(t.rstrip('fF')))
        s = t.rstrip('uUlL')
        v = int(s, 0) if not (s.startswith('0') and len(s) > 1 and s[1] not in 'xX') else int(s, 8)
        ty = 'int'
        suf = t[len(s):].lower()
        if 'l' in suf or v > 0x7fffffff:
            ty = 'long'
        if 'u' in suf:
            ty = 'unsigned ' + ty
        r = self.fresh(t, ty, z3.IntVal(v), lit=v)
        return r

    def e_chr(self, n, t):
        return self.fresh(t, 'char', lit=t)

    def e_str(self, n, t):
        v = self.fresh('"%s"' % t, 'char const*', lit=t)
        v.truth0 = True
        return v

    def e_name(self, n, name):
        if name == 'NULL':
            return V(0, 'NULL', 'void*', None, None, 0, None, False)
        if name in ('true', 'false'):
            return self.fresh(name, 'bool', z3.IntVal(1 if name == 'true' else 0), lit=1 if name == 'true' else 0)
        if name == 'this':
            if self.this is None:
                self.problem('undeclared', 'this outside a member function')
                return self.fresh('this', '')
            return self.this
        c = self.lookup(name)
        if c is not None:
            if c.val.origin and c.val.origin[0] == 'uninit' and c.val.id not in self.facts:
                self.oblige('uninitialised', False, 'variable %s is read before it is set' % name)
            else:
                self.obligations += 1
            return c.val
        return self.global_name(name)

    def global_name(self, name):
        ok = self.known_name(name)
        self.oblige('undeclared', ok, lambda: 'name %s is not declared' % name)
        k = ('global', name)
        if k not in self.heap:
            v = self.unit_var(name)
            self.heap[k] = self.fresh(name, norm(v.type) if v is not None else '')
            if v is not None and '*' not in v.type:
                self.facts[self.heap[k].id] = True
        return self.heap[k]

    def unit_var(self, name):
        return self.ctx.unit.var(name)

    def known_name(self, name):
        if name in self.ctx.names or name in self.ctx.known:
            return True
        if capi.known(name):
            return True
        if '::' in name:
            first = name.split('::')[0] or name.split('::')[1]
            f0 = first.split('<')[0]
            return f0 in self.ctx.known or f0 in self.ctx.names or f0 == 'std' or self.lookup(f0) is not None
        base = name.split('<')[0]
        if base in self.ctx.known or base in self.ctx.names:
            return True
        if self.this is not None:
            cls = re.sub(r'\*$', '', self.this.ty)
            if (cls + '::' + name) in self.ctx.names:
                return True
        return False

    def e_member(self, n, obj, arrow, name):
        b = self.eval(obj)
        return self.field(b, name, show(n))

    def field(self, b, name, text):
        k = (b.id, name)
        if k not in self.heap:
            ty = ''
            if name == 'obj':
                ty = self.pystruct_obj(b.ty)
            self.heap[k] = self.fresh(text, ty, origin=('field', b, name))
        return self.heap[k]

    def pystruct_obj(self, ty):
        t = ty.rstrip('*').strip()
        for (nm, words, toks, line) in self.ctx.unit.classes:
            if nm == t:
                ws = [x.t for x in toks]
                if 'obj' in ws:
                    k = ws.index('obj')
                    st = k
                    while st > 0 and ws[st - 1] not in (';', 'PyObject_HEAD', '{', '}'):
                        st -= 1
                    return norm(' '.join(ws[st:k]))
        return ''

    def e_index(self, n, obj, idx):
        b = self.eval(obj)
        i = self.eval(idx)
        key = ('[]', b.id, i.lit if i.lit is not None else i.id)
        if key not in self.heap:
            z = strip_parens(obj)
            v = self.fresh(show(n), b.ty[:-1] if b.ty.endswith('*') else '', origin=('index', b))
            if b.origin and b.origin[0] == 'init' and i.lit is not None:
                items = b.origin[1]
                v = items[i.lit] if i.lit < len(items) else self.fresh('0', 'int', z3.IntVal(0), lit=0)
            self.heap[key] = v
        return self.heap[key]

    def e_un(self, n, op, x):
        if op == '&':
            y = strip_parens(x)
            if y.op == 'un' and y.a[0] == '*':
                return self.eval(y.a[1])
            lv = self.lvalue(y)
            k = ('addr',) + self.lvkey(lv)
            if k not in self.heap:
                v = self.fresh(show(n), self.lvtype(lv) + '*', addr=lv)
                v.truth0 = True
                self.heap[k] = v
            return self.heap[k]
        if op == '*':
            v = self.eval(x)
            if v.addr is not None:
                return self.load(v.addr, show(n))
            k = ('*', v.id)
            if k not in self.heap:
                self.heap[k] = self.fresh(show(n), v.ty[:-1].strip() if v.ty.endswith('*') else '')
                self.heap[k].origin = ('deref', v)
            return self.heap[k]
        if op == '!':
            c = self.cond(x)
            return self.fresh(show(n), 'int', z3.IntVal(0 if c else 1), lit=0 if c else 1)
        if op in ('++', '--'):
            return self.incdec(x, op)
        v = self.eval(x)
        if op == '-' and v.z is not None:
            lit = -v.lit if isinstance(v.lit, (int, float)) else None
            return self.fresh(show(n), v.ty, z3.simplify(-v.z), lit=lit)
        if op == '-' and isinstance(v.lit, float):
            return self.fresh(show(n), v.ty, lit=-v.lit)
        if op == '+':
            return v
        return self.fresh(show(n), v.ty, origin=('un', v))

    def incdec(self, x, op):
        lv = self.lvalue(strip_parens(x))
        v = self.load(lv, show(x))
        nv = self.fresh(v.text, v.ty, (v.z + (1 if op == '++' else -1)) if v.z is not None else None)
        self.store(lv, nv, show(x))
        self.ev('step', op=op, lv=lv, old=v, value=nv)
        return nv

    def e_post(self, n, op, x):
        lv = self.lvalue(strip_parens(x))
        v = self.load(lv, show(x))
        nv = self.fresh(v.text, v.ty, (v.z + (1 if op == '++' else -1)) if v.z is not None else None)
        self.store(lv, nv, show(x))
        self.ev('step', op=op, lv=lv, old=v, value=nv)
        return v

    def e_bin(self, n, op, x, y):
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            c = self.cond(n)
            return self.fresh(show(n), 'int', z3.IntVal(1 if c else 0), lit=1 if c else 0)
        p, q = self.eval(x), self.eval(y)
        if op == '+' and p.z is None and p.ty.endswith('*') and isinstance(q.lit, int):
            return self.e_un(n, '&', N('index', x, y, line=n.line))     # a + k is &a[k]
        if op in ('+', '-', '*') and p.z is not None and q.z is not None:
            z = {'+': p.z + q.z, '-': p.z - q.z, '*': p.z * q.z}[op]
            return self.fresh(show(n), p.ty if (base_int(p.ty) or (0,))[0] >= (base_int(q.ty) or (0,))[0] else q.ty, z)
        key = ('bin', op, p.id if p.lit is None else ('lit', p.lit), q.id if q.lit is None else ('lit', q.lit))
        if op == '&' and key in self.preds:
            return self.preds[key]
        v = self.fresh(show(n), '', origin=('bin', p, q))
        if op in ('&', '|'):
            v.origin = ('bits', op, p, q)
            self.preds[key] = v
        return v

    def e_cond(self, n, c, x, y):
        t = self.cond(c)
        self.ev('branch', cond=show(c), taken=t, node=c)
        return self.eval(x if t else y)

    def e_comma(self, n, x, y):
        self.eval(x)
        return self.eval(y)

    def e_cast(self, n, ty, x):
        v = self.eval(x)
        return self.conv(v, norm(ty))

    def e_xcast(self, n, kind, ty, x):
        v = self.eval(x)
        if kind == 'dynamic_cast':
            k = ('dyn', v.id, norm(ty))
            if k not in self.heap:
                self.heap[k] = self.fresh(show(n), norm(ty), origin=('dyn', v))
            return self.heap[k]
        return self.conv(v, norm(ty))

    def e_typeid(self, n, x):
        v = self.eval(x)
        k = ('typeid', v.id)
        if k not in self.heap:
            self.heap[k] = self.fresh(show(n), 'std::type_info')
        return self.heap[k]

    def e_sizeof(self, n, x):
        return self.fresh(show(n), 'size_t')

    def e_new(self, n, ty, args):
        vs = [self.eval(x) for x in args]
        self.may_throw('new ' + norm(ty), vs)
        v = self.fresh(show(n), norm(ty) + '*', origin=('new', norm(ty), vs))
        v.truth0 = True
        e = self.ev('new', ty=norm(ty), args=vs, value=v, node=n)
        e.pointees = [self.load(x.addr, x.text.lstrip('&')) if x.addr is not None else None for x in vs]
        return v

    def e_pnew(self, n, place, ty, args):
        pv = self.eval(place)
        vs = [self.eval(x) for x in args]
        v = self.fresh(show(n), norm(ty), origin=('construct', vs))
        if pv.addr is not None:
            self.store(pv.addr, v, pv.text)
        self.ev('pnew', ty=norm(ty), place=pv, args=vs, value=v)
        return self.fresh(show(n), norm(ty) + '*')

    def e_newarray(self, n, ty, args):
        vs = [self.eval(x) for x in args]
        v = self.fresh(show(n), norm(ty) + '*', origin=('newarray', norm(ty), vs))
        v.truth0 = True
        self.ev('newarray', ty=norm(ty), args=vs, value=v)
        return v

    def e_delete(self, n, x, arr):
        v = self.eval(x)
        self.ev('delete', value=v, text=show(x), arr=arr)
        return self.fresh('void', 'void')

    def e_init(self, n, items):
        return self.initlist(n)

    def e_throw(self, n, x):
        if x is not None:
            self.eval(x)
        self.ev('throwstmt', text=show(x))
        raise Cut()

    # --- lvalues
    def lvalue(self, n):
        n = strip_parens(n)
        if n.op in ('cast', 'xcast'):
            return self.lvalue(n.a[1] if n.op == 'cast' else n.a[2])
        if n.op == 'name':
            c = self.lookup(n.a[0])
            if c is not None:
                return ('var', c)
            self.global_name(n.a[0])
            return ('glob', n.a[0])
        if n.op == 'member':
            b = self.eval(n.a[0])
            return ('field', b, n.a[2])
        if n.op == 'un' and n.a[0] == '*':
            v = self.eval(n.a[1])
            if v.addr is not None:
                return v.addr
            return ('deref', v)
        if n.op == 'index':
            b = self.eval(n.a[0])
            i = self.eval(n.a[1])
            return ('index', b, i.lit if i.lit is not None else i.id, i)
        v = self.eval(n)
        return ('tmp', v)

    def lvkey(self, lv):
        if lv[0] == 'var':
            return ('var', id(lv[1]))
        if lv[0] == 'glob':
            return lv
        if lv[0] in ('field', 'index'):
            return (lv[0], lv[1].id, lv[2])
        return (lv[0], lv[1].id)

    def lvtype(self, lv):
        if lv[0] == 'var':
            return lv[1].ty
        if lv[0] == 'glob':
            v = self.unit_var(lv[1])
            return norm(v.type) if v is not None else ''
        if lv[0] == 'field':
            if lv[2] == 'obj':
                return self.pystruct_obj(lv[1].ty)
            return self.ctx.member_types.get(lv[2], '')
        if lv[0] == 'deref':
            return lv[1].ty[:-1].strip() if lv[1].ty.endswith('*') else ''
        if lv[0] == 'index':
            return lv[1].ty[:-1].strip() if lv[1].ty.endswith('*') else ''
        return lv[1].ty

    def load(self, lv, text=''):
        if lv[0] == 'var':
            return lv[1].val
        if lv[0] == 'glob':
            return self.global_name(lv[1])
        if lv[0] == 'field':
            return self.field(lv[1], lv[2], text)
        if lv[0] == 'deref':
            k = ('*', lv[1].id)
            if k not in self.heap:
                self.heap[k] = self.fresh(text or '*' + lv[1].text, self.lvtype(lv), origin=('deref', lv[1]))
            return self.heap[k]
        if lv[0] == 'index':
            k = ('[]', lv[1].id, lv[2])
            if k not in self.heap:
                self.heap[k] = self.fresh(text, '', origin=('index', lv[1]))
            return self.heap[k]
        return lv[1]

    def store(self, lv, v, text=''):
        ty = self.lvtype(lv)
        if ty:
            v = self.conv(v, ty)
        if lv[0] == 'var':
            lv[1].val = v
        elif lv[0] == 'glob':
            self.heap[('global', lv[1])] = v
        elif lv[0] == 'field':
            self.heap[(lv[1].id, lv[2])] = v
        elif lv[0] == 'deref':
            self.heap[('*', lv[1].id)] = v
        elif lv[0] == 'index':
            self.heap[('[]', lv[1].id, lv[2])] = v
        return v

    def e_assign(self, n, op, l, r):
        v = self.eval(r)
        lv = self.lvalue(strip_parens(l))
        if op != '=':
            old = self.load(lv, show(l))
            if op in ('+=', '-=') and old.z is not None and v.z is not None:
                v = self.fresh(show(l), old.ty, old.z + v.z if op == '+=' else old.z - v.z)
            elif op == '|=':
                v = self.fresh(show(n), old.ty, origin=('bits', '|', old, v))
            elif op == '&=':
                v = self.fresh(show(n), old.ty, origin=('bits', '&', old, v))
            else:
                v = self.fresh(show(n), old.ty)
        self.line = n.line or self.line
        old = None
        v2 = self.store(lv, v, show(l))
        self.ev('assign', lhs=show(strip_parens(l)), lv=lv, value=v2, rhs=show(r), node=n, op=op, old=old)
        return v2

    # --- calls
    def e_call(self, n, fn, args):
        f = strip_parens(fn)
        if f.op == 'name':
            name = f.a[0]
            c = self.lookup(name)
            if c is None:
                h = capi.handler(name)
                if h is not None:
                    ok = self.known_name(name)
                    self.oblige('undeclared', ok, lambda: 'function %s is not declared' % name)
                    return h(self, n, name, args)
                return self.ccall(n, name, None, args)
            return self.ccall(n, name, c.val, args)
        if f.op == 'member':
            b = self.eval(f.a[0])
            self.recvlv = None
            r = strip_parens(f.a[0])
            if r.op == 'member' and strip_parens(r.a[0]).op == 'name':
                self.recvlv = self.lvalue(r)
            return self.ccall(n, f.a[2], b, args, recv=f.a[0], arrow=f.a[1])
        b = self.eval(f)
        return self.ccall(n, show(f), b, args)

    def ccall(self, n, name, base, args, recv=None, arrow=None):
        """call of C++ user code or of another generated function"""
        sig = self.ctx.sigs.get(name)
        recvlv, self.recvlv = getattr(self, 'recvlv', None), None
        outs = {}
        vs = []
        for xi, x in enumerate(args):
            d = sig[xi] if sig is not None and xi < len(sig) else None
            if d and 'O' in d and self.is_lvalue(x):
                lv = self.lvalue(strip_parens(x))
                outs[xi] = lv
                if 'I' in d:
                    self.eval(x)
                vs.append(self.load(lv, show(x)))
            else:
                vs.append(self.eval(x))
        self.line = n.line or self.line
        if base is None:
            spec = capi.local_contract(self, name)
            if spec is not None:
                return spec(self, n, name, vs)
            ok = self.known_name(name)
            self.oblige('undeclared', ok, lambda: 'function %s is not declared' % name)
        e = self.ev('call', name=name, base=base, recv=show(recv) if recv is not None else None, args=vs,
                    argtext=[show(x) for x in args], node=n, api=False, text=show(n))
        e.recvlv = recvlv
        e.pointees = [self.load(x.addr, x.text.lstrip('&')) if x.addr is not None else None for x in vs]
        if recv is not None and name == 'set_pyobj':
            self.need_gil('%s (touches reference counts)' % name)
        elif recv is not None and name == 'tp_free':
            self.need_gil('tp_free')
        # output parameters
        if capi.is_usercode(name, base, recv):
            self.may_throw(show(n), vs)
        for xi, x in enumerate(vs):
            if x.addr is not None and not (recv is not None and name in capi.CONST_METHODS):
                lv = x.addr
                ty = self.lvtype(lv)
                nv = self.fresh_int(x.text, ty) if base_int(ty) and strip_const(ty) != 'bool' else self.fresh(x.text.lstrip('&'), ty)
                nv.origin = ('out', e, xi)
                self.store(lv, nv)
        for xi, lv in outs.items():
            ty = self.lvtype(lv)
            nv = self.fresh_int(vs[xi].text, ty) if base_int(ty) and strip_const(ty) != 'bool' else self.fresh(vs[xi].text, ty)
            nv.origin = ('out', e, xi)
            self.store(lv, nv)
        ty = capi.result_type(self, name, base)
        v = self.fresh(show(n), ty, origin=('call', n, e))
        e.result = v
        return v

    def is_lvalue(self, n):
        n = strip_parens(n)
        return n.op in ('name', 'member', 'index') or n.op == 'un' and n.a[0] == '*'

    def need_gil(self, what):
        self.oblige('gil', self.gil == 'held', lambda: 'Python API used while the interpreter lock is not held: %s' % what)

    # --- references
    def own(self, v, k=1):
        self.refs[v.id] = self.refs.get(v.id, 0) + k
        self.p.__dict__.setdefault('refvals', {})[v.id] = v
