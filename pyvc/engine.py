"""Path exploration, path conditions and proof obligations."""
import time
import z3
from .values import *


class Obligation(object):
    __slots__ = ('name', 'proved', 'refuted', 'unknown', 'detail', 'time', 'abstract', 'trivial')

    def __init__(self, name):
        self.name = name
        self.proved = 0
        self.refuted = 0
        self.unknown = 0
        self.trivial = 0
        self.detail = None
        self.time = 0.0
        self.abstract = False

    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.unknown:
            return 'unknown'
        return 'proved' if self.proved else 'none'


class LoopInfo(object):
    def __init__(self):
        self.symbolic = False
        self.dropped = set()
        self.cells = set()
        self.vacuous = True


class LoopSpec(object):
    """Invariant material for loops over a given unbounded base.

    cands: list of Cand; invs: list of (name, f(L)) extra invariants, L has .i (z3
    Int index), .n, .get(local name); axioms(i): list of z3 facts (definitional
    unfoldings of the ghost functions at index i)."""

    def __init__(self, tag=None, cands=(), invs=(), axioms=None):
        self.tag = tag
        self.cands = list(cands)
        self.invs = list(invs)
        self.axioms = axioms or (lambda i: [])


class Cand(object):
    """ghost fold function: F(i) of the given kind ('bool','int','str','list_s',
    'list_v','join'); the coupling composed with the initial value is inferred"""

    def __init__(self, name, kind, f):
        self.name, self.kind, self.f = name, kind, f


class TaskResult(object):
    def __init__(self, name):
        self.name = name
        self.obligations = {}
        self.paths = 0
        self.ended = 0
        self.unsupported = None
        self.error = None
        self.time = 0.0
        self.solver_time = 0.0
        self.checks = 0
        self.functions = set()
        self.contracts_used = set()
        self.restarts = 0
        self.loops = {}

    @property
    def status(self):
        if self.error:
            return 'error'
        if self.unsupported:
            return 'unsupported'
        st = [o.status for o in self.obligations.values()]
        if 'refuted' in st:
            return 'refuted'
        if 'unknown' in st:
            return 'unknown'
        if not st or not self.ended:
            return 'vacuous'
        return 'proved'


class Engine(object):
    MAX_PATHS = 4000
    MAX_RESTARTS = 120

    def __init__(self, name, timeout_ms=6000, deadline=None):
        self.res = TaskResult(name)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.loops = {}
        self.contracts = {}       # function key -> contract callable
        self.class_models = {}    # class -> model class
        self.loop_specs = []

    # --- exploration -----------------------------------------------------
    def run(self, task):
        from .interp import Interp
        t0 = time.time()
        restarts = 0
        while True:
            self.res.obligations = {}
            self.res.paths = self.res.ended = 0
            try:
                self._explore(task, Interp)
                break
            except Restart as r:
                restarts += 1
                if restarts > self.MAX_RESTARTS:
                    self.res.unsupported = 'too many restarts (%s)' % (r,)
                    break
            except Unsupported as u:
                self.res.unsupported = str(u)
                break
            except EngineSignal as u:
                self.res.unsupported = 'signal %r' % (u,)
                break
        self.res.restarts = restarts
        self.res.time = time.time() - t0
        self.res.loops = self.loops
        return self.res

    def _explore(self, task, Interp):
        pending = [[]]
        while pending:
            prefix = pending.pop()
            if self.res.paths >= self.MAX_PATHS:
                raise Unsupported('path limit')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            self.res.paths += 1
            self.trace = list(prefix)
            self.pos = 0
            self.new = []
            self.pc = []
            self.counter = {}
            self.materialized = 0
            self.abstract = False     # a loop was cut on this path
            self.inexact = False      # ... and its state at the cut is not exactly known
            self.cuts = []            # (index or None, length) of the cut loops
            self.joins = []           # (separator, sequence, text) of joined unbounded sequences
            self.loop_specs = []
            self.write_log = None
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            self.interp = Interp(self)
            try:
                task(self)
                self.res.ended += 1
            except PathEnd:
                pass
            # schedule alternatives discovered on this path
            for (depth, alts) in self.new:
                for a in alts:
                    pending.append(self.trace[:depth] + [a])

    def fresh_name(self, base):
        c = self.counter.get(base, 0)
        self.counter[base] = c + 1
        return base if c == 0 else '%s!%d' % (base, c)

    def choose(self, n, label=''):
        """nondeterministic choice 0..n-1 (all explored)"""
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            c = 0
            self.trace.append(0)
            if n > 1:
                self.new.append((len(self.trace) - 1, list(range(1, n))))
        self.pos += 1
        return c

    def assume(self, cond):
        if isinstance(cond, SBool):
            cond = cond.expr
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.pc.append(cond)
        self.solver.add(cond)

    def check(self, *extra):
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        try:
            r = self.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.last_model = None
        if r == z3.sat:
            try:
                self.last_model = self.solver.model()
            except z3.Z3Exception:
                pass
        self.solver.pop()
        self.res.solver_time += time.time() - t
        self.res.checks += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')
        return r

    def decide(self, cond):
        """truth of a z3 Bool on this path, forking when both are possible"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
            self.pos += 1
            v = (c == 0)
            self.assume(cond if v else z3.Not(cond))
            return v
        rt = self.check(cond)
        if rt == z3.unsat:
            v = False
            self.trace.append(1)
        else:
            rf = self.check(z3.Not(cond))
            if rf == z3.unsat:
                v = True
                self.trace.append(0)
            else:
                v = True
                self.trace.append(0)
                self.new.append((len(self.trace) - 1, [1]))
        self.pos += 1
        self.assume(cond if v else z3.Not(cond))
        return v

    def feasible(self):
        return self.check() != z3.unsat

    # --- obligations --------------------------------------------------------
    def prove(self, name, cond, detail=None):
        o = self.res.obligations.get(name)
        if o is None:
            o = self.res.obligations[name] = Obligation(name)
        if isinstance(cond, SBool):
            cond = cond.expr
        if isinstance(cond, bool) or cond is None:
            if cond:
                o.proved += 1
                o.trivial += 1
                return True
            cond = z3.BoolVal(False)
        t = time.time()
        r = self.check(z3.Not(cond))
        o.time += time.time() - t
        if r == z3.unsat:
            o.proved += 1
            return True
        if self.abstract and not (r == z3.sat and self.witness(cond)):
            o.abstract = True
        if r == z3.sat:
            o.refuted += 1
            if o.detail is None:
                o.detail = self._describe(cond, detail)
        else:
            o.unknown += 1
            if o.detail is None:
                o.detail = 'solver gave no answer' + (': %s' % detail if detail else '')
        return False

    def witness(self, cond):
        """the failure is that of a real execution: the loops cut on the path have their exact state (a fold over the
        elements so far) and they run at most once, so that the folds are completely defined"""
        if self.inexact:
            return False
        small = []
        for (i, n) in self.cuts:
            small.append(n == 1 if i is not None else z3.And(n >= 0, n <= 1))
            if i is not None:
                small.append(i == 0)
        for (sep, e, j) in self.joins:
            n = z3.Length(e)
            t = e[0]
            small += [n <= 3, z3.Implies(n == 0, j == z3.StringVal(''))]
            for k in range(1, 4):
                small.append(z3.Implies(n == k, j == t))
                t = z3.Concat(t, sep, e[k])
        return self.check(z3.Not(cond), *small) == z3.sat

    def _describe(self, cond, detail):
        m = self.last_model
        out = []
        if detail:
            out.append(str(detail))
        out.append('goal: ' + str(cond)[:600])
        out.append('path: ' + ' & '.join(str(c)[:160] for c in self.pc)[:1500])
        if m is not None:
            out.append('countermodel: ' + str(m)[:1500])
        return '\n'.join(out)

    # --- symbolic inputs ---------------------------------------------------------
    def str(self, name, kind='any', nonempty=False):
        n = self.fresh_name(name)
        e = z3.String(n)
        if kind == 'ident':
            self.assume(z3.InRe(e, IDENT_RE))
        elif kind == 'line':
            self.assume(z3.Not(z3.Contains(e, z3.StringVal('\n'))))
        if nonempty and kind != 'ident':
            self.assume(z3.Length(e) > 0)
        return SStr([Atom(e, kind)])

    def int(self, name):
        return SInt(z3.Int(self.fresh_name(name)))

    def bool(self, name):
        return SBool(z3.Bool(self.fresh_name(name)))

    def val(self, name, isa=(), tag=None):
        return SVal(z3.Const(self.fresh_name(name), Val), isa, tag)

    def seq_str(self, name):
        return mklist([('s', SeqSeg(z3.Const(self.fresh_name(name), SeqStr)))])

    def seq_val(self, name):
        return mklist([('s', SeqSeg(z3.Const(self.fresh_name(name), SeqVal)))])

    def records(self, name, make):
        n = z3.Int(self.fresh_name('len_' + name))
        self.assume(n >= 0)
        seg = RecSeg(name, n, make)
        return mklist([('s', seg)]), seg

    def opt(self, name, mk):
        """None or mk() - forked"""
        return None if self.choose(2, name) == 0 else mk()

    # --- calls ---------------------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        return self.interp.call(fn, list(args), dict(kwargs))

    def outcome(self, fn, *args, **kwargs):
        """('ok', value) or ('exc', exception)"""
        try:
            return 'ok', self.interp.call(fn, list(args), dict(kwargs))
        except Exception as e:
            if isinstance(e, (AttributeError, TypeError, NameError, AssertionError)) or type(e).__module__.startswith('z3'):
                tb = e.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                f = tb.tb_frame.f_code.co_filename
                if '/pyvc/' in f or '/contracts/' in f or '/z3/' in f:
                    # possibly a limit of the engine: never reported as a refutation
                    self.abstract = self.inexact = True
            return 'exc', e

    def eq(self, a, b):
        return self.interp.sym_eq(a, b)

    def z(self, v):
        return self.interp.to_z3(v)


_idstart = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'))
_idchar = z3.Union(_idstart, z3.Range('0', '9'))
IDENT_RE = z3.Concat(_idstart, z3.Star(_idchar))
