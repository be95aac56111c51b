"""C18 - contracts on custodians and wards (pybindgen/cppclass.py, function.py, cppmethod.py):

  add_custodian_and_ward: any two ends; the relation is recorded once, post-call exactly if it involves the return value or
      that was asked for, refused if it involves the return value and pre-call was asked for;
  scan_custodians_and_wards: any parameter list; each declared option gives one relation, in order, nothing else does;
  implement_parameter_custodians_precall/postcall: any list of relations; each pre-call (post-call) one is implemented once,
      in order, in the block before (after) the call, between the objects and under the condition of its ends;
  _get_custodian_or_ward, _get_custodian_condition: any parameter list and position: the object of that end;
  _add_ward: the emitted code makes that custodian keep that ward, once, and leaves no reference of its own; without a
      custodian it does nothing;
  generate_body of each kind of wrapper: the pre-call relations are made right before the call, after the conversions and
      the last error exit of the parameters, the post-call ones after the result has its wrapper - once each."""
import re
import z3
from . import task, need
from .ghost import *
from . import ctext, wrap, c13_catch
from pybindgen import cppclass
from pybindgen.function import Function
from pybindgen.cppmethod import CppMethod, CppConstructor, CppVirtualMethodParentCaller
from pybindgen.typehandlers.base import TypeConfigurationError, ForwardWrapperBase


# ------------------------------------------------------------------------------------------ recording
def add(E, cls):
    f = cls.__new__(cls)
    old = E.seq_val('relations')
    f.custodians_and_wards = old
    before = list(old.get_parts())
    c, w = E.int('custodian'), E.int('ward')
    post = [None, False, True][E.choose(3, 'postcall')]
    k, r = E.outcome(cls.add_custodian_and_ward, f, c, w, *([] if post is None and E.choose(2, 'given') == 0 else [post]))
    result = z3.Or(c.expr == -1, w.expr == -1)
    if k == 'exc':
        E.prove('refused only when the return value is to be bound before the call', z3.And(result, z3.BoolVal(post is False)), r)
        E.prove('as a configuration error', isinstance(r, TypeConfigurationError), r)
        E.prove('and nothing is recorded', f.custodians_and_wards.get_parts() == before)
        return
    E.prove('binding the return value before the call is refused', z3.Not(z3.And(result, z3.BoolVal(post is False))))
    got = f.custodians_and_wards.get_parts()
    E.prove('recorded once, after the others', got[:-1] == before and len(got) == len(before) + 1 and got[-1][0] == 'e', got)
    a, b, p = got[-1][1]
    E.prove('the ends are those given', z3.And(E.z(a) == c.expr, E.z(b) == w.expr))
    pz = E.z(p) if isinstance(p, Sym) else z3.BoolVal(bool(p))
    E.prove('after the call if the return value is involved or it was asked for, else before', pz == (z3.BoolVal(True) if post else result))


@task('C18', 'Function.add_custodian_and_ward')
def t_add_function(E):
    add(E, Function)


@task('C18', 'CppMethod.add_custodian_and_ward')
def t_add_method(E):
    add(E, CppMethod)


@task('C18', 'CppConstructor.add_custodian_and_ward')
def t_add_constructor(E):
    add(E, CppConstructor)


# ------------------------------------------------------------------------------------------ declarations
class Rec(object):
    _pyvc_model = True


REL = z3.Function('relation', I, I, StrSort)


@task('C18', 'scan_custodians_and_wards: one relation for each declared option, any parameters')
def t_scan(E):
    n = z3.Int('len_parameters')
    E.assume(n >= 0)
    HAS = z3.Function(E.fresh_name('has_custodian'), I, z3.BoolSort())
    CU = z3.Function(E.fresh_name('custodian'), I, I)
    F, ax = fold_seq(E, 'relations', n, lambda i: z3.If(HAS(i), z3.Unit(REL(CU(i), i + 1)), z3.Empty(SeqStr)))

    def make(e, i):
        p = Rec()
        if e.decide(HAS(i)):
            p.custodian = SInt(CU(i))
        elif e.choose(2, 'attribute'):
            p.custodian = None
        return p
    seg = RecSeg('parameters', n, make)
    E.loop_specs.append(LoopSpec(lambda t: t is seg or getattr(t, 'base', None) is seg, [Cand('relations', 'list_s', F)], axioms=ax))
    w = Function.__new__(Function)
    w.parameters = mklist([('s', seg)])
    got = w.got = mklist([])

    def record(eng, self, c, wd, postcall=None):
        if postcall is not None:
            eng.prove('after the call exactly if the return value is involved', z3.Or(eng.z(c) == -1, eng.z(wd) == -1) == z3.BoolVal(bool(postcall)), postcall)
        eng.interp.list_method(got, 'append', [SStr([Atom(REL(eng.z(c), eng.z(wd)))])], {})
    E.contracts[Function.add_custodian_and_ward] = record
    rv = E.choose(5, 'return value')
    r = None
    want = []
    if rv:
        r = Rec()
        if rv >= 2:
            r.custodian = E.int('rc') if rv % 2 else None
            if rv % 2:
                want.append(REL(r.custodian.expr, -1))
        if rv >= 3:
            r.return_internal_reference = rv >= 4 or rv == 3 and E.choose(2, 'internal') == 1
            if r.return_internal_reference:
                want.append(REL(z3.IntVal(-1), z3.IntVal(0)))
    w.return_value = r
    k, x = E.outcome(cppclass.scan_custodians_and_wards, w)
    E.prove('accepted', k == 'ok', x)
    parts = [z3.Unit(E.z(v)) if q == 'e' else v.seqexpr() for q, v in got.get_parts()]
    have = z3.Concat(*([z3.Empty(SeqStr), z3.Empty(SeqStr)] + parts))
    E.prove('the declared relations, in order', have == z3.Concat(*([F(n), z3.Empty(SeqStr)] + [z3.Unit(x) for x in want])), got)


# ------------------------------------------------------------------------------------------ ends
@task('C18', '_get_custodian_or_ward, _get_custodian_condition: any position')
def t_ends(E):
    n = z3.Int('len_parameters')
    E.assume(n >= 0)
    PY = z3.Function(E.fresh_name('py_name'), I, StrSort)
    OPT = z3.Function(E.fresh_name('optional'), I, z3.BoolSort())

    def make(e, i):
        p = Rec()
        p.py_name = SStr([Atom(PY(i))])
        if e.decide(OPT(i)):
            c = e.choose(3, 'optional')
            p.default_value = None if c == 1 else '0'
            p.null_ok = c > 0
        else:
            p.default_value = None
            if e.choose(2, 'null_ok'):
                p.null_ok = False
        return p
    w = Function.__new__(Function)
    seg = RecSeg('parameters', n, make)
    w.parameters = mklist([('s', seg)])
    rv = w.return_value = Rec()
    rv.py_name = E.str('py_retval', nonempty=True)
    self_ = E.choose(3, 'self')
    if self_ == 0:
        w.self_parameter_pystruct = None
    elif self_ == 1:
        w.is_static = True
        w.self_parameter_pystruct = None
    else:
        w.self_parameter_pystruct = 'PyK'
    c = E.choose(3, 'end')
    num = E.int('number')
    if c < 2:
        num = c - 1
    else:
        E.assume(z3.And(num.expr >= 1, num.expr <= n))
    k, r = E.outcome(cppclass._get_custodian_or_ward, w, num)
    if c == 1 and self_ != 2:
        E.prove('self is refused in a wrapper without self', k == 'exc' and isinstance(r, TypeConfigurationError), r)
        return
    E.prove('accepted', k == 'ok', r)
    if k != 'ok':
        return
    obj = E.z(rv.py_name) if c == 0 else z3.StringVal('self') if c == 1 else PY(num.expr - 1)
    X = 'self' if c == 1 else 'X'

    def text(t):
        if isinstance(t, SStr):
            for p in t.pieces:
                if not isinstance(p, str):
                    E.prove('the text is about the object of that end', p.expr == obj, t)
            return ''.join(p if isinstance(p, str) else X for p in t.pieces)
        return t

    def paths(body):
        ex, u = ctext.run('int F(PyObject *%s)\n{\n%s\nreturn 0;\n}\n' % (X, body), known=['USE'])
        E.prove('the text is a proper expression', not ex.problems, ex.problems[:3])
        return [p for p in ex.paths if p.end != 'cut']
    for p in paths('USE(%s);' % text(r)):
        E.prove('the object of that end', [e.args[0].id for e in p.calls('USE')] == [p.params[X].id], r)
    k, cond = E.outcome(cppclass._get_custodian_condition, w, num)
    E.prove('accepted', k == 'ok', cond)
    if k != 'ok':
        return
    if c == 1:
        E.prove('self always exists', cond is None, cond)
    elif cond is None:
        E.prove('the return value may be NULL', c == 2, cond)
        E.prove('a parameter that is always given exists', z3.Not(OPT(num.expr - 1)) if c == 2 else False, cond)
    else:
        seen = set()
        for p in paths('if (%s) { USE(1); }' % text(cond)):
            x = p.params[X]
            null = p.facts.get(x.id) is False
            none = any('Py_None' in t and (('==' in t) == taken) for (t, taken, _) in p.conds if taken is not None)
            used = len(p.calls('USE'))
            seen.add(used)
            E.prove('the relation is made exactly if the custodian exists', used == (0 if null or c == 2 and none else 1), (cond, p.conds, p.facts))
            E.prove('the test looks at NULL, and at None for a parameter', x.id in p.facts, (cond, p.facts))
        E.prove('both cases exist', seen == {0, 1}, seen)


# ------------------------------------------------------------------------------------------ which, where
def implement(E, fn, post):
    w = Function.__new__(Function)
    world = wrap.World(E, ('before_call', 'after_call'))
    w.before_call = wrap.GhostBlock(world, 'return NULL;', None)
    w.after_call = wrap.GhostBlock(world, 'return NULL;', None)
    n = z3.Int('len_relations')
    E.assume(n >= 0)
    C, W = (z3.Function(E.fresh_name(x), I, I) for x in ('custodian', 'ward'))
    P = z3.Function(E.fresh_name('postcall'), I, z3.BoolSort())
    OBJ = z3.Function('object', I, StrSort)
    COND = z3.Function('condition', I, StrSort)
    ADD = z3.Function('add_ward', StrSort, StrSort, StrSort, StrSort)
    mine = P if post else (lambda i: z3.Not(P(i)))
    F, ax = fold_seq(E, 'implemented', n, lambda i: z3.If(mine(i), z3.Unit(ADD(OBJ(C(i)), OBJ(W(i)), COND(C(i)))), z3.Empty(SeqStr)))
    E.contracts[cppclass._get_custodian_or_ward] = lambda eng, wr, k: SStr([Atom(OBJ(eng.z(k)))])
    E.contracts[cppclass._get_custodian_condition] = lambda eng, wr, k: SStr([Atom(COND(eng.z(k)))])
    E.contracts[cppclass._add_ward] = lambda eng, block, c, wd, cond=None: block.write_code(SStr([Atom(ADD(eng.z(c), eng.z(wd), z3.StringVal('') if cond is None else eng.z(cond)))]))
    seg = RecSeg('relations', n, lambda e, i: (SInt(C(i)), SInt(W(i)), SBool(P(i))))
    E.loop_specs.append(LoopSpec(lambda t: t is seg, [Cand('implemented', 'list_s', F)], axioms=ax))
    w.custodians_and_wards = mklist([('s', seg)])
    k, r = E.outcome(fn, w)
    E.prove('no error', k == 'ok', r)
    here, there = (w.after_call, w.before_call) if post else (w.before_call, w.after_call)
    E.prove('nothing on the other side of the call', not there.sink.get_parts(), there.sink.get_parts())
    parts = [z3.Unit(E.z(v)) if q == 'e' else v.seqexpr() for q, v in here.sink.get_parts()]
    E.prove('each relation of this side once, in order, between its ends and under the condition of its custodian',
            z3.Concat(*([z3.Empty(SeqStr), z3.Empty(SeqStr)] + parts)) == z3.Concat(F(n), z3.Empty(SeqStr)), parts)


@task('C18', 'implement_parameter_custodians_precall: any relations')
def t_pre(E):
    implement(E, cppclass.implement_parameter_custodians_precall, False)


@task('C18', 'implement_parameter_custodians_postcall: any relations')
def t_post(E):
    implement(E, cppclass.implement_parameter_custodians_postcall, True)


# ------------------------------------------------------------------------------------------ the emitted code
@task('C18', '_add_ward: the custodian keeps the ward')
def t_add_ward(E):
    from suites import c18
    names = ctext.Names(E)
    b = ctext.TextBlock(names)
    c, w = names.new('custodian', 'C1'), names.new('ward', 'W1')
    cond = names.new('condition', 'C1 && C1 != Py_None') if E.choose(2, 'condition') else None
    two = E.choose(2, 'two relations') == 1
    ends = [('C1', 'W1')]
    E.call(cppclass._add_ward, b, c, w, cond)
    if two:
        E.call(cppclass._add_ward, b, names.new('custodian2', 'C2'), names.new('ward2', 'W2'), None if E.choose(2, 'condition 2') else names.new('condition2', 'C2'))
        ends.append(('C2', 'W2'))
    cleanups = [names.text(x) for x in b.get_cleanup()]
    text = 'PyObject *F(PyObject *C1, PyObject *W1, PyObject *C2, PyObject *W2)\n{\n%s\n%s\nreturn NULL;\n}\n' % (b.body(), '\n'.join(cleanups))
    ex, u = ctext.run(text)
    E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
    bound = set()
    for p in ex.paths:
        if p.end == 'cut':
            continue
        at = c18.attaches(p)
        E.prove('references are balanced', not any(k and p.facts.get(v) is not False for v, k in p.refs.items()), (p.refs, [p.refvals[k].text for k in p.refs], p.conds, p.facts, text))
        rest = list(at)
        for (cn, wn) in ends:
            mine = [a for a in rest if a['cust'].id == p.params[cn].id]
            absent = p.facts.get(p.params[cn].id) is False or cond is not None and any('Py_None' in t and cn in t and v is False for (t, v, _) in p.conds)
            if not mine:
                E.prove('left out only without a custodian', absent, (cn, p.conds, p.facts))
                continue
            E.prove('once', len(mine) == 1, len(mine))
            a = mine[0]
            rest.remove(a)
            E.prove('not without a custodian', not absent, (cn, p.conds))
            wv = p.params[wn]
            E.prove('that ward', all(e.args[1].id == wv.id for e in a['appends'] + a['contains']), [e.argtext for e in a['appends'] + a['contains']])
            E.prove('a ward that may be NULL is tested first', p.facts.get(wv.id) is True or not a['appends'] + a['contains'], p.facts)
            if not a['appends'] and not a['contains']:
                E.prove('only a NULL ward is left out', p.facts.get(wv.id) is False, (p.facts, p.conds))
                continue
            bad = c18.whole(a, wv, None, p)
            E.prove('the ward is stored in the list the custodian holds', bad is None, (bad, p.conds))
            if a['appends']:
                bound.add(cn)
                E.prove('the list is released after its last use', all(e.seq > a['appends'][-1].seq for e in p.calls('Py_DECREF') + p.calls('Py_XDECREF') if e.args[0].id in a['lists']), p.conds)
        E.prove('and no other', not rest, [a['cust'].text for a in rest])
    E.prove('the ward is bound on some path', bound == set(x for x, _ in ends), bound)


# ------------------------------------------------------------------------------------------ the wrappers
def hooks(E, make, entry, cases):
    w = c13_catch.world(E)
    w.kind, c, unblock, n, m = cases[E.choose(len(cases), 'case')]
    w.taken = False
    E.contracts[cppclass.implement_parameter_custodians_precall] = lambda eng, wr: wr.before_call.write_code('PRE();')
    E.contracts[cppclass.implement_parameter_custodians_postcall] = lambda eng, wr: wr.after_call.write_code('POST();')
    ret = None
    if make is not c13_catch.make_constructor:
        ret = c13_catch.returns(E, w, c)
        if ret.ctype == 'void':
            ret.type_traits = c13_catch.Traits('void', False)
    w.build = 1 if ret is not None else 0
    f = make(E, w, ret, unblock)
    f.throw = list(c13_catch.exceptions(E, w, n, m))
    sink = w.sink()
    k, r = E.outcome(entry, f, sink)
    E.prove('generated', k == 'ok', r)
    if k != 'ok':
        return
    pre = 'struct RT { int x; };\nstruct HELPER { int x; };\nstruct PyCLS { PyObject_HEAD CLS *obj; int flags; };\nextern PyTypeObject CLSTYPE;\n'
    ex, u = ctext.run(pre + sink.ctext() + '\n', known=c13_catch.KNOWN + ['PRE', 'POST'])
    E.prove('the emitted code has no error of its own', not ex.problems, ex.problems[:3])
    done = 0
    for p in ex.paths:
        if p.end == 'cut':
            continue
        calls = [e.name.split('::')[-1] for e in p.calls()]
        order = [x for x in calls if x in ('PRE', 'POST', 'TARGET', 'CREATE', 'CONVERT_BEFORE_CALL', 'RETVAL_TO_PYTHON', 'Py_BuildValue')]
        for e in p.calls('PRE') + p.calls('POST'):
            E.prove('with the lock held', e.gil == 'held', e.gil)
        failed = p.ret_text in ('NULL', '-1')
        thrown = any(e.kind == 'throw' for e in p.events)
        t = [i for i, x in enumerate(order) if x in ('TARGET', 'CREATE')]
        E.prove('each hook once at most', order.count('PRE') <= 1 and order.count('POST') <= 1, order)
        if t:
            done += 1
            E.prove('the pre-call relations are made before the call, after the conversions', 'PRE' in order[:t[0]] and 'CONVERT_BEFORE_CALL' not in order[order.index('PRE'):], order)
            if not failed and not thrown:
                E.prove('the post-call relations are made after the call', 'POST' in order[t[0]:], order)
                if ret is not None:
                    E.prove('after the result has its wrapper and before it is handed out', order.index('POST') > order.index('RETVAL_TO_PYTHON') and 'Py_BuildValue' not in order[:order.index('POST')], order)
        if 'POST' in order:
            E.prove('no post-call relation without the call', bool(t) and order.index('POST') > t[0], order)
    E.prove('the call is reached', done > 0)


@task('C18', 'Function.generate: relations are made on their side of the call')
def t_hooks_function(E):
    hooks(E, c13_catch.make_function, Function.generate, c13_catch.cases(1, 4, (0, 1)))


@task('C18', 'CppMethod.generate: relations are made on their side of the call')
def t_hooks_method(E):
    hooks(E, c13_catch.make_method, CppMethod.generate, c13_catch.cases(4, 2, (0, 1)))


@task('C18', 'CppVirtualMethodParentCaller.generate: relations are made on their side of the call')
def t_hooks_parent(E):
    hooks(E, c13_catch.make_parent_caller, CppVirtualMethodParentCaller.generate, c13_catch.cases(1, 4, (0, 1)))


@task('C18', 'CppConstructor.generate: relations are made on their side of the call')
def t_hooks_constructor(E):
    hooks(E, c13_catch.make_constructor, CppConstructor.generate, c13_catch.cases(2, 1, (0, 1)))
