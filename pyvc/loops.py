"""Loop rule: cut a loop over unbounded data by an inductive invariant.

The invariant is a conjunction of couplings  cell == C(i)  (C a ghost fold function of
the contract, composed with the cell's value at loop entry, or the unchanged value)
and of extra invariants of the contract.  Candidate couplings that are not inductive
are dropped and the task restarts (Houdini); what survives is proved at entry and
preserved by the body for an arbitrary iteration."""
import ast
import z3
from .values import *
from .engine import LoopInfo, LoopSpec, Cand


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


class LoopRun(object):
    """records heap writes during the arbitrary iteration"""

    def __init__(self, ip, fr, info, existing):
        self.ip, self.fr, self.info = ip, fr, info
        self.existing = existing      # id(obj) -> (path, obj)
        self.writes = set()
        self.start = SList.made

    def note(self, obj, cell):
        p = self.existing.get(id(obj))
        if p is not None:
            self.writes.add((p[0], cell))
        elif isinstance(obj, SList) and obj.serial <= self.start:
            raise Unsupported('a loop writes to a list that is not reachable from its function')
        elif isinstance(obj, (list, dict, set)) and any(v is obj for v in self.fr.globals.values()):
            raise Unsupported('a loop writes to a global')


def reachable(fr):
    """objects reachable from the frame's variables: id -> (path, obj)"""
    out = {}
    todo = []
    f = fr
    while f is not None:
        for k in sorted(f.locals):
            todo.append(((k,), f.locals[k]))
        f = f.parent
    todo.sort(key=lambda t: t[0])
    while todo:
        path, o = todo.pop(0)
        if isinstance(o, (str, int, float, bool, type(None), type, Sym)) or callable(o) and not hasattr(o, '__dict__'):
            continue
        if id(o) in out:
            continue
        import types
        if isinstance(o, (types.ModuleType, types.FunctionType, types.MethodType)):
            continue
        out[id(o)] = (path, o)
        if len(path) > 6:
            continue
        if isinstance(o, SList) and o.parts is not None:
            for n, (k, v) in enumerate(o.parts):
                if k == 'e':
                    todo.append((path + (n,), v))
        elif isinstance(o, (list, tuple)):
            for n, v in enumerate(list.__iter__(o) if isinstance(o, list) else o):
                todo.append((path + (n,), v))
        elif isinstance(o, dict):
            for k in o:
                if isinstance(k, (str, int)):
                    todo.append((path + (k,), o[k]))
        elif hasattr(o, '__dict__') and not isinstance(o, type):
            for k in sorted(o.__dict__):
                if k.startswith('_pyvc'):
                    continue
                todo.append((path + (k,), o.__dict__[k]))
    return out


class Cell(object):
    """a havocked location: local variable, object attribute, list or map content"""

    def __init__(self, kind, key, get, set_):
        self.kind, self.key, self.get, self.set = kind, key, get, set_


def content_cell(path, obj):
    if isinstance(obj, SList):
        return Cell('list', ('c',) + path, lambda: mklist(list_parts(obj)), lambda v: obj.set_parts(list_parts(v)))
    if isinstance(obj, PMap):
        def setm(v):
            obj.present, obj.value = v.present, v.value
        return Cell('map', ('c',) + path, lambda: obj.copy(), setm)
    return None


def collect_cells(ip, fr, names, info, existing):
    cells = []
    for nme in sorted(names):
        if nme in fr.locals:
            def g(nme=nme):
                return fr.locals[nme]

            def st(v, nme=nme):
                fr.locals[nme] = v
            cells.append(Cell('local', ('l', nme), g, st))
    bypath = {p: o for p, o in existing.values()}
    for (path, cell) in sorted(info.cells, key=repr):
        o = bypath.get(path)
        if o is None:
            raise Unsupported('loop writes to %s, not reachable at entry' % (path,))
        if cell is None:
            c = content_cell(path, o)
            if c is None:
                raise Unsupported('loop mutates a %s at %s' % (type(o).__name__, path))
            c.where = (o, None)
            cells.append(c)
        else:
            def g2(o=o, cell=cell):
                return getattr(o, cell)

            def s2(v, o=o, cell=cell):
                object.__setattr__(o, cell, v)
            c = Cell('attr', ('a',) + path + (cell,), g2, s2)
            c.where = (o, cell)
            cells.append(c)
    # what this loop modifies is modified by the loops around it
    for c in cells:
        w = getattr(c, 'where', None)
        if w is not None:
            ip.note_write(*w)
    return cells


def built(f, parts, cand):
    """a coupling of a list that is also a way to build it"""
    f.build = lambda i: mklist(parts + [('s', SeqSeg(cand.f(i)))])
    return f


def couplings(ip, v0, spec):
    """[(name, fresh-maker, f(i) -> z3 term of the cell value, extractor)] for a cell whose
    entry value is v0"""
    out = []
    if isinstance(v0, (str, SStr)):
        z0 = ip.to_z3(v0)
        out.append(('same', 'str', lambda i: z0))
        for c in spec.cands:
            if c.kind == 'str':
                out.append((c.name, 'str', lambda i, c=c: c.f(i)))
                out.append(('v0+' + c.name, 'str', lambda i, c=c: z3.Concat(z0, c.f(i))))
                out.append((c.name + '+v0', 'str', lambda i, c=c: z3.Concat(c.f(i), z0)))
    elif isinstance(v0, (bool, SBool)):
        z0 = ip.to_z3(v0)
        out.append(('same', 'bool', lambda i: z0))
        for c in spec.cands:
            if c.kind == 'bool':
                out.append((c.name, 'bool', lambda i, c=c: c.f(i)))
                out.append(('not ' + c.name, 'bool', lambda i, c=c: z3.Not(c.f(i))))
                out.append(('v0|' + c.name, 'bool', lambda i, c=c: z3.Or(z0, c.f(i))))
    elif isinstance(v0, (int, SInt)):
        z0 = ip.to_z3(v0)
        out.append(('same', 'int', lambda i: z0))
        out.append(('v0+i', 'int', lambda i: z0 + i))
        for c in spec.cands:
            if c.kind == 'int':
                out.append((c.name, 'int', lambda i, c=c: c.f(i)))
                out.append(('v0+' + c.name, 'int', lambda i, c=c: z0 + c.f(i)))
    elif isinstance(v0, list):
        for c in spec.cands:
            if c.kind in ('list_s', 'list_v'):
                sort = SeqStr if c.kind == 'list_s' else SeqVal
                if not list_parts(v0):
                    out.append((c.name, c.kind, built(lambda i, c=c: c.f(i), [], c)))
                else:
                    try:
                        z0 = ip.list_expr(v0)
                    except Unsupported:
                        # elements that are not strings (a slot filled in later): kept as they are, what follows is coupled
                        parts = list_parts(v0)
                        k = len(parts)
                        while k and ip.expressible(parts[k - 1]):
                            k -= 1
                        if any(t != 'e' for t, _ in parts[:k]):
                            continue
                        pre = [x for _, x in parts[:k]]
                        if k == len(parts):
                            out.append(('kept+' + c.name, ('pre', pre, c.kind), lambda i, c=c: c.f(i)))
                        continue
                    if z0.sort() != sort:
                        continue
                    out.append(('v0+' + c.name, c.kind, built(lambda i, c=c, z0=z0: z3.Concat(z0, c.f(i)), list_parts(v0), c)))
            elif c.kind == 'join':
                try:
                    j0 = ip.to_z3(ip.join_expr('', v0))
                except (Unsupported, TypeError):
                    continue
                out.append(('join v0+' + c.name, 'join', lambda i, c=c, j0=j0: z3.Concat(j0, c.f(i))))
        # last resort: some list of strings
        out.append(('strings', 'list_s', None))
    return out


def couple(f, i, e):
    return z3.BoolVal(True) if f is None else e == f(i)


def fresh_value(eng, kind, key):
    if isinstance(kind, tuple):
        return mklist([('e', x) for x in kind[1]] + list_parts(fresh_value(eng, kind[2], key)))
    nm = eng.fresh_name('loop_' + '_'.join(str(k) for k in key))
    if kind == 'str':
        return SStr([Atom(z3.String(nm))])
    if kind == 'bool':
        return SBool(z3.Bool(nm))
    if kind == 'int':
        return SInt(z3.Int(nm))
    if kind in ('list_s', 'join'):
        return mklist([('s', SeqSeg(z3.Const(nm, SeqStr)))])
    if kind == 'list_v':
        return mklist([('s', SeqSeg(z3.Const(nm, SeqVal)))])
    raise Unsupported('havoc ' + kind)


def cell_expr(ip, kind, v):
    if isinstance(kind, tuple):
        parts = list_parts(v)
        k = len(kind[1])
        if len(parts) < k or any(t != 'e' or x is not y for (t, x), y in zip(parts, kind[1])):
            raise Unsupported('leading elements changed')
        return ip.list_expr(mklist(parts[k:]), SeqStr if kind[2] == 'list_s' else SeqVal)
    if kind == 'join':
        return ip.to_z3(ip.join_expr('', v))
    if kind in ('list_s', 'list_v'):
        return ip.list_expr(v, SeqStr if kind == 'list_s' else SeqVal)
    if kind == 'str' and not isinstance(v, (str, SStr)):
        raise Unsupported('cell changed type')
    if kind == 'bool' and not isinstance(v, (bool, SBool)):
        raise Unsupported('cell changed type')
    if kind == 'int' and (not isinstance(v, (int, SInt)) or isinstance(v, bool)):
        raise Unsupported('cell changed type')
    return ip.to_z3(v)


def find_spec(ip, seg):
    tags = []
    s = seg
    while s is not None:
        tags.append(s)
        s = getattr(s, 'base', None)
    specs = [sp for sp in ip.eng.loop_specs
             if sp.tag is None or any(sp.tag is t or (callable(sp.tag) and not isinstance(sp.tag, Seg) and sp.tag(t))
                                      for t in tags)]
    return specs


def merged_spec(ip, seg):
    m = LoopSpec()
    axs = []
    for sp in find_spec(ip, seg):
        m.cands += sp.cands
        m.invs += sp.invs
        axs.append(sp.axioms)
    e = seg.seqexpr()
    if e is not None and e.sort() in (SeqStr, SeqVal):
        # the elements so far
        m.cands.append(Cand('prefix', 'list_s' if e.sort() == SeqStr else 'list_v', lambda i: z3.Extract(e, z3.IntVal(0), i)))
        n = z3.Length(e)
        axs.append(lambda i: [z3.Extract(e, z3.IntVal(0), z3.IntVal(0)) == z3.Empty(e.sort()), z3.Extract(e, z3.IntVal(0), n) == e,
                              z3.Implies(z3.And(i >= 0, i < n), z3.Extract(e, z3.IntVal(0), i + 1) == z3.Concat(z3.Extract(e, z3.IntVal(0), i), z3.Unit(e[i])))])
    m.axioms = lambda i: [a for f in axs for a in f(i)]
    return m


def cut_segment(ip, s, seg, part_no, fr):
    from .interp import _Break, _Continue, LView
    eng = ip.eng
    key = ip.loop_key(s, fr) + (part_no,)
    info = eng.loops.setdefault(key, LoopInfo())
    spec = merged_spec(ip, seg)
    n = seg.length()
    names = assigned_names(s.body)
    tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(None))])
    existing = reachable(fr)
    cells = collect_cells(ip, fr, names - tnames, info, existing)
    zero = z3.IntVal(0)
    for a in spec.axioms(zero):
        eng.assume(a)
    # couplings that hold at entry
    plan = []
    for c in cells:
        v0 = c.get()
        alive = []
        for (cn, kind, f) in couplings(ip, v0, spec):
            ck = (c.key, cn)
            if ck in info.dropped:
                continue
            try:
                cur = cell_expr(ip, kind, v0)
            except (Unsupported, TypeError):
                info.dropped.add(ck)
                continue
            if eng.check(z3.Not(couple(f, zero, cur))) != z3.unsat:
                info.dropped.add(ck)
                raise Restart('coupling %s at entry' % (ck,))
            alive.append((ck, kind, f))
        if len(alive) > 1:
            alive = [a for a in alive if a[2] is not None] or alive
            # a list has one representation: prefer full content over its join
            kinds = set(k if isinstance(k, str) else k[2] for _, k, _ in alive)
            if kinds & {'list_s', 'list_v'} and 'join' in kinds:
                alive = [a for a in alive if a[1] != 'join'] + [a for a in alive if a[1] == 'join']
        plan.append((c, v0, alive))
    for (iname, f) in spec.invs:
        if (iname,) in info.dropped:
            continue
        L = LView(fr, zero, n, ip)
        try:
            g = f(L)
        except (Unsupported, TypeError, KeyError, AttributeError):
            info.dropped.add((iname,))
            raise Restart('invariant %s not applicable' % iname)
        if g is not None and eng.check(z3.Not(g)) != z3.unsat:
            info.dropped.add((iname,))
            raise Restart('invariant %s at entry' % iname)
    eng.abstract = True
    which = eng.choose(2, 'loop')
    eng.cuts.append((None, n))
    i = z3.Int(eng.fresh_name('i')) if which == 0 else n
    eng.loop_index = i
    eng.cuts[-1] = (i if which == 0 else None, n)
    if any(not alive or alive[0][2] is None or alive[0][1] == 'join' for (c, v0, alive) in plan):
        eng.inexact = True

    def havoc():
        for (c, v0, alive) in plan:
            if not alive:
                c.set(Poison('modified in loop'))
                if c.kind in ('list', 'map'):
                    raise Unsupported('no invariant for %s modified in a loop' % (c.key,))
                continue
            main_kind = alive[0][1]
            b = getattr(alive[0][2], 'build', None)
            v = fresh_value(eng, main_kind, c.key) if b is None else b(i)
            c.set(v)
            for (ck, kind, f) in alive:
                eng.assume(couple(f, i, cell_expr(ip, kind, v)))
        for (iname, f) in spec.invs:
            if (iname,) in info.dropped:
                continue
            g = f(LView(fr, i, n, ip))
            if g is not None:
                eng.assume(g)
    if which == 0:
        eng.assume(z3.And(i >= 0, i < n))
        # every list cell without coupling is only a problem if it is used: give up
        havoc()
        for a in spec.axioms(i):
            eng.assume(a)
        if not eng.feasible():
            raise PathEnd()
        run = LoopRun(ip, fr, info, existing)
        ip.loop_stack.append(run)
        try:
            ip.assign(s.target, seg.element(eng, i), fr)
            try:
                ip.ex_block(s.body, fr)
            except _Continue:
                pass
        except (_Break,):
            _check_writes(run, info)
            raise
        except Exception:
            _check_writes(run, info)
            raise
        finally:
            ip.loop_stack.pop()
        _check_writes(run, info)
        i1 = z3.simplify(i + 1)
        for (c, v0, alive) in plan:
            for (ck, kind, f) in alive:
                try:
                    cur = cell_expr(ip, kind, c.get())
                    ok = eng.check(z3.Not(couple(f, i1, cur))) == z3.unsat
                except (Unsupported, TypeError):
                    ok = False
                if not ok:
                    info.dropped.add(ck)
                    raise Restart('coupling %s not preserved' % (ck,))
        for (iname, f) in spec.invs:
            if (iname,) in info.dropped:
                continue
            try:
                g = f(LView(fr, i1, n, ip))
                ok = g is None or eng.check(z3.Not(g)) == z3.unsat
            except (Unsupported, TypeError):
                ok = False
            if not ok:
                info.dropped.add((iname,))
                raise Restart('invariant %s not preserved' % iname)
        for (c, v0, alive) in plan:
            for (ck, kind, f) in alive:
                eng.prove('loop invariant %s:%s' % (key[0].split(':')[-1], ck[1]), True)
        for (iname, f) in spec.invs:
            if (iname,) not in info.dropped:
                eng.prove('loop invariant %s' % iname, True)
        raise PathEnd()
    # exit of the segment
    havoc()
    for t in tnames:
        fr.locals[t] = Poison('loop variable after loop')
    eng.loop_exit_plan = plan


def _check_writes(run, info):
    new = run.writes - info.cells
    if new:
        info.cells |= new
        raise Restart('loop writes %s' % (sorted(new, key=repr)[:3],))


def cut_while(ip, s, fr, key, info):
    """while loop with a symbolic condition: havoc what the body modifies, assume the
    negated condition after it (partial correctness)"""
    from .interp import _Break, _Continue, LView
    eng = ip.eng
    names = assigned_names(s.body) | assigned_names([ast.Expr(s.test)])
    existing = reachable(fr)
    cells = collect_cells(ip, fr, names, info, existing)
    spec = LoopSpec()
    for sp in eng.loop_specs:
        if sp.tag == 'while':
            spec.cands += sp.cands
            spec.invs += sp.invs
    plan = []
    for c in cells:
        v0 = c.get()
        alive = []
        if isinstance(v0, (str, SStr)):
            kind = 'str'
        elif isinstance(v0, (bool, SBool)):
            kind = 'bool'
        elif isinstance(v0, (int, SInt)):
            kind = 'int'
        else:
            kind = None
        if kind is not None and (c.key, 'same') not in info.dropped:
            alive.append((c.key, 'same'))
        elif kind == 'int':
            # the value never falls below (rises above) its value at entry
            c.mono = [m for m in ('>=', '<=') if (c.key, m) not in info.dropped]
        plan.append((c, v0, kind, alive))
    L = LView(fr, None, None, ip)
    for (iname, f) in spec.invs:
        if (iname,) in info.dropped:
            continue
        try:
            g = f(L)
            ok = g is None or eng.check(z3.Not(g)) == z3.unsat
        except (Unsupported, TypeError, KeyError, AttributeError):
            ok = False
        if not ok:
            info.dropped.add((iname,))
            raise Restart('while invariant %s at entry' % iname)
    eng.abstract = eng.inexact = True
    which = eng.choose(2, 'while')
    entry = {}
    for (c, v0, kind, alive) in plan:
        if kind is None:
            c.set(Poison('modified in while loop'))
            if c.kind in ('list', 'map'):
                raise Unsupported('while loop mutates %s' % (c.key,))
            continue
        if alive:
            continue           # unchanged so far: keep the value
        c.set(fresh_value(eng, kind, c.key))
        for m in getattr(c, 'mono', ()):
            x, y = ip.to_z3(c.get()), ip.to_z3(v0)
            eng.assume(x >= y if m == '>=' else x <= y)
    for (iname, f) in spec.invs:
        if (iname,) in info.dropped:
            continue
        g = f(L)
        if g is not None:
            eng.assume(g)
    t = ip.truth_expr(ip.ev(s.test, fr))
    if which == 0:
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
        else:
            eng.assume(t)
        if not eng.feasible():
            raise PathEnd()
        run = LoopRun(ip, fr, info, existing)
        ip.loop_stack.append(run)
        try:
            ip.ex_block(s.body, fr)
        except _Continue:
            pass
        except _Break:
            _check_writes(run, info)
            raise
        finally:
            ip.loop_stack.pop()
        _check_writes(run, info)
        for (c, v0, kind, alive) in plan:
            if alive:
                try:
                    ok = eng.check(z3.Not(cell_expr(ip, kind, c.get()) == ip.to_z3(v0))) == z3.unsat
                except (Unsupported, TypeError):
                    ok = False
                if not ok:
                    info.dropped.add((c.key, 'same'))
                    raise Restart('while cell changes')
            for m in getattr(c, 'mono', ()):
                try:
                    x, y = cell_expr(ip, 'int', c.get()), ip.to_z3(v0)
                    ok = eng.check(z3.Not(x >= y if m == '>=' else x <= y)) == z3.unsat
                except (Unsupported, TypeError):
                    ok = False
                if not ok:
                    info.dropped.add((c.key, m))
                    raise Restart('while cell not monotone')
                eng.prove('loop invariant: %s %s its value at entry' % (c.key[-1], m), True)
        for (iname, f) in spec.invs:
            if (iname,) in info.dropped:
                continue
            g = f(L)
            if g is not None and eng.check(z3.Not(g)) != z3.unsat:
                info.dropped.add((iname,))
                raise Restart('while invariant %s' % iname)
            eng.prove('loop invariant %s' % iname, True)
        raise PathEnd()
    if isinstance(t, bool):
        if t:
            raise PathEnd()
    else:
        eng.assume(z3.Not(t))
    if not eng.feasible():
        raise PathEnd()
    ip.ex_block(s.orelse, fr)
