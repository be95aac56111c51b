"""Obligations over emitted functions, shared by the property suites.

Each emitted C function of the corpus is evaluated on all its paths (minic); a property is
a set of obligations on the paths.  'Corpus' = suites.grid modules plus the repository's
own module scripts (tests/, examples/)."""
import glob
import io
import os
import re
import sys
import multiprocessing

from . import corpus, grid
from .corpus import Generated, run_mods, is_target, targets, Checker
from minic.parser import Unit, ParseError, N
from minic.sym import Ctx, Exec, Unmodelled, show
from minic.ctypes_ import norm, strip_const, base_int, irange
from .common import REPO


def walk(n, f):
    if isinstance(n, N):
        f(n)
        for x in n.a:
            walk(x, f)
    elif isinstance(n, (list, tuple)):
        for x in n:
            walk(x, f)


def find(n, op):
    out = []
    walk(n, lambda x: out.append(x) if x.op == op else None)
    return out


def entry_state(g, f):
    """methods of helper classes that override C++ virtuals are entered by C++ code, without the lock"""
    m = re.match(r'(\w+__PythonHelper)::([\w~]+)$', f.name)
    if m and not m.group(2).startswith(('_wrap', '~', 'set_pyobj')) and not m.group(2).endswith('__parent_caller') \
            and m.group(2) != m.group(1) and 'static' not in (f.ret or ''):
        return 'unheld'
    return 'held'


def execs(g):
    """(function, evaluation) of every emitted function"""
    for f in g.unit.funcs:
        st = entry_state(g, f)
        k = ('f', id(f), st)
        if k not in g.execs:
            if st == 'held' and g.unit.func(f.name) is f:
                g.execs[k] = g.exec(f.name)
            else:
                g.execs[k] = Exec(g.ctx, f, st).run()
        yield f, st, g.execs[k]


def problems(kinds, what):
    """check: no problem of these kinds in any emitted function"""
    def chk(c, g, ws):
        for f, st, ex in execs(g):
            n = sum(ex.checked.get(k, 0) for k in kinds)
            c.count('obligations', n)
            bad = 0
            for pr in ex.problems:
                if pr.kind in kinds:
                    bad += 1
                    c.fail('%s:%s:%s' % (pr.kind, anon(f.name), anon(pr.msg)), '%s in %s, line %s: %s' % (what, f.name, pr.line, pr.msg), '', f)
            c.count('discharged', n - bad)
            c.count('emitted functions')
            c.case((f.name, n) if n else None, None)
    return chk


def anon(s):
    return re.sub(r'\d+', '#', s)


class ScriptMod(object):
    """one of the repository's own generator scripts"""
    def __init__(self, path, extra):
        self.path, self.extra = path, extra
        self.fns, self.classes, self.attrs = [], [], []
        # enumerations of the headers; openmode is an int-sized enumeration of the C++ library here
        names = re.findall(r'\benum\s+(\w+)', headers(path))
        self.enums = [(n, []) for n in names] + [('std::ofstream::openmode', [])]
        self.enums += [('%s::%s' % (ns, n), []) for n in names for ns in re.findall(r'\bnamespace\s+(\w+)', headers(path))]
        self.name = os.path.basename(path)

    def text(self):
        return '# emitted by %s' % self.path

    def known(self):
        return self.extra

    def sigs(self):
        return {}

    def all_fns(self):
        return []


SCRIPTS = ['tests/foomodulegen.py', 'tests/c-hello/hellomodulegen.py', 'tests/boost/barmodulegen.py', 'examples/*/*modulegen.py']


def headers(path):
    return '\n'.join(open(h, errors='replace').read() for h in sorted(glob.glob(os.path.join(os.path.dirname(path), '*.h'))))


def script_known(path):
    """identifiers of the headers beside the script: what the user's code declares"""
    k = set(['boost', 'std', 'Glib', 'shared_ptr', 'string', 'vector', 'map', 'what', 'exc', 'get', 'runtime_error', 'exception'])
    for h in glob.glob(os.path.join(os.path.dirname(path), '*.h')) + glob.glob(os.path.join(os.path.dirname(path), '*.cc')):
        if os.path.basename(h) in ('hellomodule.cc',):
            continue
        k.update(re.findall(r'[A-Za-z_]\w*', open(h, errors='replace').read()))
    k.update(re.findall(r'\bPy\w+', open(path, errors='replace').read()))      # functions a handler of the script's own uses
    return k


def _run_script(path):
    """in a forked child: run the script, return its output"""
    os.chdir(os.path.dirname(path))
    sys.path.insert(0, os.path.dirname(path))
    sys.dont_write_bytecode = True
    sys.argv = [path, '.']
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        with open(path) as fh:
            src = fh.read()
        try:
            exec(compile(src, path, 'exec'), {'__name__': '__main__', '__file__': path})
        except SystemExit:
            pass
    finally:
        sys.stdout, sys.stderr = old
    return out.getvalue()


def _script_child(job):
    path, checks = job[0], corpus.CHECKS
    res = dict(fails=[], stats={}, samples=[], cases=0, keys=set(), error=None, skipped=[])
    try:
        try:
            text = _run_script(path)
        except Exception as ex:
            res['skip'] = '%s: %r' % (path, ex)
            return res
        mod = ScriptMod(path, script_known(path))
        g = Generated(mod, text, [])
        g.missing = []
        c = Checker(mod, g, res)
        for fn in checks:
            fn(c, g, [])
    except (ParseError, Unmodelled) as ex:
        res['skip'] = '%s: not readable here: %s' % (path, ex)
    return res


def run_scripts(S, checks):
    paths = []
    for s in SCRIPTS:
        paths += sorted(glob.glob(os.path.join(REPO, s)))
    corpus.CHECKS = checks
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(4, maxtasksperchild=1) as pool:
        for p, r in zip(paths, pool.imap(_script_child, [(p,) for p in paths], chunksize=1)):
            if r.get('skip'):
                S.notes.append('skipped ' + r['skip'])
                S.count('repository scripts skipped')
                continue
            S.count('repository scripts')
            for (key, what, detail, repro, _) in r['fails']:
                S.fail('script:' + os.path.relpath(p, REPO) + ':' + key, what, detail, repro)
            for k, n in r['stats'].items():
                S.count(k, n)
            S.n += r['cases']


def sweep(S, checks, mods, scripts=True):
    run_mods(S, mods, checks)
    if scripts:
        run_scripts(S, checks)
