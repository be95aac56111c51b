#!/usr/bin/env python3
"""make /verif/seeded/<id>/ from the specs in dev/seeds/*.py; usage: mkseed.py [--try [--full]] [ID...]

A spec file defines SEEDS: list of dict(id, property, file, edits=[(old, new)...], demo (python source),
needs, breaks).  --try: applies each to /repo, runs the demo and the check, undoes it."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = '/verif'
DEMO_SH = '''#!/bin/sh
# exit 0 when the property holds, nonzero when it does not
here=$(dirname "$0")
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''


def load():
    out = []
    for f in sorted(glob.glob(V + '/dev/seeds/*.py')):
        ns = {'__file__': f}
        exec(compile(open(f).read(), f, 'exec'), ns)
        out += ns['SEEDS']
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkseed')
    try:
        diff = ''
        byfile = {}
        for e in s['edits']:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            byfile.setdefault(f, []).append((old, new))
        for f, eds in byfile.items():
            a = open('/repo/' + f).read()
            b = a
            for old, new in eds:
                assert b.count(old) == 1, (s['id'], f, b.count(old), old)
                b = b.replace(old, new)
            for side, t in (('a', a), ('b', b)):
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(t)
        diff = sh('git diff --no-index --no-prefix a b', cwd=tmp).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    return d


def tryit(s, full):
    """in a scratch copy of /repo's committed tree, with a scratch copy of the working tree of /verif"""
    d = os.path.join(V, 'seeded', s['id'])
    t = tempfile.mkdtemp(prefix='tryseed')
    try:
        r, v = t + '/r', t + '/v'
        sh('git clone -q /repo %s && rsync -a --exclude .git --exclude seeded --exclude replay %s/ %s' % (r, V, v))
        r0 = sh('sh %s/demo.sh' % d, cwd=r, timeout=300)
        a = sh('git -C %s apply %s/patch.diff' % (r, d))
        res = {'clean': r0.returncode, 'apply': a.returncode}
        r1 = sh('sh %s/demo.sh' % d, cwd=r, timeout=300)
        res['demo'] = r1.returncode
        c = sh('PYVC_REPO=%s python3 %s/check.py %s' % (r, v, s['property']), cwd=v, timeout=900)
        res['check'] = c.returncode
        res['line'] = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        if full:
            with LOCK:
                assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout
                sh('git -C /repo apply %s/patch.diff' % d)
                try:
                    res['tests'] = sh('sh /verif/dev/regress.sh').stdout.strip()
                finally:
                    sh('git -C /repo checkout -- .')
    finally:
        shutil.rmtree(t)
    ok = res['clean'] == 0 and res.get('demo') and res.get('check') == 1 and res['line'] and res.get('tests', '463 463 lost []') == '463 463 lost []'
    print('OK ' if ok else '** ', s['id'], res, '' if res['clean'] == 0 else r0.stdout[-500:],
          '' if ok else [l for l in c.stdout.splitlines() if 'failed' in l or 'failing' in l][:2], flush=True)


if __name__ == '__main__':
    import threading
    from concurrent.futures import ThreadPoolExecutor
    LOCK = threading.Lock()
    a = sys.argv[1:]
    t, full = '--try' in a, '--full' in a
    ids = [x for x in a if not x.startswith('-')]
    todo = []
    for s in load():
        if ids and not any(s['id'].startswith(i) for i in ids):
            continue
        try:
            make(s)
            todo.append(s)
        except AssertionError as e:
            print('** STALE', s['id'], str(e)[:200])
    if t:
        with ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(tryit, s, full) for s in todo]:
                f.result()
