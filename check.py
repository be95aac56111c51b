#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property on /repo's current tree.

1. prover: every contract of the property is discharged from /repo's current source (pyvc);
2. bounded suite: executable form of the same contracts on the real code (minic for emitted C).
Exit 0 held / 1 VIOLATION."""
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
REPO = os.environ.get('PYVC_REPO', '/repo')


def reexec():
    """run under the verification interpreter, importing pybindgen from the tree under test"""
    want = HERE + ':' + REPO
    if os.path.exists(VT) and os.environ.get('VERIF_REEXEC') != '1':
        env = dict(os.environ, PYTHONPATH=want, PYTHONDONTWRITEBYTECODE='1', VERIF_REEXEC='1', PYTHONHASHSEED='0')
        os.execve(VT, [VT, os.path.join(HERE, 'check.py')] + sys.argv[1:], env)


def prove_one(args):
    pid, idx, tmo, budget = args
    from pyvc import run
    name, fn = run.load_tasks(pid)[idx]
    t0 = time.time()
    r = run.run_task(name, fn, timeout_ms=tmo, budget=budget)
    obl = [dict(name=o.name, status=o.status, abstract=bool(o.abstract), detail=str(o.detail)[:3000],
                proved=o.proved, refuted=o.refuted, unknown=o.unknown) for o in r.obligations.values()]
    return dict(task=name, status=r.status, obligations=obl, paths=r.paths, wall=time.time() - t0,
                error=r.error, unsupported=str(r.unsupported) if r.unsupported else None,
                solver=getattr(r, 'solver_time', 0), functions=sorted(getattr(r, 'functions', []) or []),
                trusted=sorted(getattr(r, 'trusted', []) or []))


def prover(pid, tier):
    from pyvc import run
    tasks = run.load_tasks(pid)
    if not tasks:
        return []
    tmo, budget = (6000, 150) if tier == 'quick' else (20000, 600)
    jobs = [(pid, i, tmo, budget) for i in range(len(tasks))]
    out = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(7, len(jobs)), maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(prove_one, (j,))) for j in jobs]
        for j, r in rs:
            try:
                out.append(r.get(timeout=600 if tier == 'quick' else 3000))
            except Exception as e:
                out.append(dict(task=tasks[j[1]][0], status='error', obligations=[], paths=0, wall=0,
                                error=repr(e), unsupported=None, solver=0, functions=[], trusted=[]))
    return out


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=<id> key=<key> -- <what fails>
                head, _, what = l[len('finding:'):].partition(' -- ')
                prop = head.split('property=', 1)[1].split()[0]
                out[(prop, head.split('key=', 1)[1].strip())] = what
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import pybindgen
    meta = json.load(open(os.path.join(HERE, 'meta.json')))[pid]
    # bounded suite in its own process
    suite_proc = None
    sout = None
    if os.path.exists(os.path.join(HERE, 'suites', pid.lower() + '.py')) and '--no-suite' not in sys.argv:
        fd, sout = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        suite_proc = subprocess.Popen([sys.executable, '-m', 'suites.common', pid, tier, str(seed), sout],
                                      cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    tasks = [] if '--no-proof' in sys.argv else prover(pid, tier)
    suite = None
    if suite_proc is not None:
        try:
            _, err = suite_proc.communicate(timeout=700 if tier == 'quick' else 3000)
        except subprocess.TimeoutExpired:
            suite_proc.kill()
            err = b'timeout'
        try:
            suite = json.load(open(sout))
        except Exception:
            suite = None
        finally:
            os.unlink(sout)
        if suite is None:
            print('check %s: the bounded suite gave no result: %s' % (pid, err.decode('utf8', 'replace')[-2000:]))
            sys.exit(2)
        if suite_proc.returncode not in (0,):
            print('check %s: suite error: %s' % (pid, '\n'.join(suite['notes'])[-3000:]))
            if not suite['fails']:
                sys.exit(2)
    known = known_findings()
    seen_known = []
    viols = []
    for f in (suite or {}).get('fails', []):
        if (pid, f['key']) in known:
            seen_known.append(f)
        else:
            viols.append(f)
    nobl = ndis = 0
    refuted, undecided = [], []
    for t in tasks:
        for o in t['obligations']:
            nobl += 1
            if o['status'] == 'proved':
                ndis += 1
        if t['status'] == 'proved':
            continue
        hard = [o for o in t['obligations'] if o['status'] == 'refuted' and not o['abstract']]
        if hard and t['status'] == 'refuted':
            refuted.append((t, hard))
        else:
            undecided.append(t)
    for f in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    code = 0
    rdir = os.path.join(HERE, 'replay')
    if viols or refuted:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as fh:
            fh.write('property %s, tree %s\nre-run: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n\n'
                     % (pid, REPO, seed, tier, pid))
            for t, hard in refuted:
                for o in hard:
                    fh.write('FAILED OBLIGATION %s\n  contract: %s\n  verifier output (z3 counter-model):\n%s\n\n'
                             % (o['name'], t['task'], o['detail']))
            for f in viols:
                fh.write('FAILING INPUT %s\n%s\n%s\n--- input ---\n%s\n\n' % (f['key'], f['what'], f['detail'], f['repro']))
        for t, hard in refuted:
            print('obligation failed: %s / %s' % (t['task'], hard[0]['name']))
        for f in viols[:10]:
            print('failing input: %s: %s' % (f['key'], f['what']))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if [f for f in viols if not f['key'].startswith('unreadable')] else ' no-failing-input-found'))
        code = 1
    if undecided:
        print('%s: %d contract(s) not decided on this tree (bounded suite stands in): %s' %
              (pid, len(undecided), '; '.join('%s [%s]' % (t['task'], t['status']) for t in undecided)))
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd='python3 check.py %s' % pid,
        trusted_base=meta.get('trusted', []) or ['z3', 'pyvc'],
        back_end='pyvc VC generator + z3 (python binding of python3-vt)' if tasks else 'minic VC generator + z3',
        contracts=[dict(contract=t['task'], status=t['status'], obligations=len(t['obligations']),
                        discharged=sum(o['status'] == 'proved' for o in t['obligations']), paths=t['paths'],
                        wall_s=round(t['wall'], 2), solver_s=round(t.get('solver') or 0, 2),
                        why=(t['unsupported'] or t['error'] or None)) for t in tasks],
        functions_under_contract=sorted({f for t in tasks for f in t['functions']}),
        solver_s=round(sum(t.get('solver') or 0 for t in tasks), 2),
        undecided=[t['task'] for t in undecided],
    )
    if suite is not None:
        cov['bounded'] = dict(label='bounded stand-in / replay, never counted as proved', evaluations=suite['evaluations'],
                              distinct_nontrivial=suite['distinct_nontrivial'], stats=suite['stats'],
                              wall_s=round(suite['wall'], 2))
        cov['evaluations'] = suite['evaluations']
        cov['distinct_nontrivial'] = suite['distinct_nontrivial']
        cov['rule'] = meta.get('rule', '')
        cov['samples'] = suite['samples']
        if not tasks or meta['level'] == 'translation_validation':
            cov['generator_obligations'], cov['generator_discharged'] = nobl, ndis
            cov['obligations'] = nobl + suite['stats'].get('obligations', 0)
            cov['discharged'] = ndis + suite['stats'].get('discharged', 0)
    if meta['level'] == 'translation_validation' and suite is not None:
        cov['programs'] = suite['stats'].get('emitted functions', suite['evaluations'])
        cov['disagreements_checked'] = suite['stats'].get('obligations', 0)
    cov['explanation'] = meta.get('explanation', '')
    cov['known_findings'] = [f['what'] for f in seen_known]
    ev = dict(property=pid, tier=tier, seed=seed, level=meta['level'], coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(viols) + len(refuted))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if code == 0:
        if tasks and nobl == 0 and not undecided:
            print('check %s: no obligations generated' % pid)
            sys.exit(2)
        print('%s held: %d/%d obligations discharged, %d bounded cases, %.1fs' %
              (pid, cov['discharged'], cov['obligations'], (suite or {}).get('evaluations', 0), time.time() - t0))
    sys.exit(code)


if __name__ == '__main__':
    reexec()
    main()
