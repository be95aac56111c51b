"""run the proof tasks of one property"""
import importlib
import os
import sys
import time
import traceback
from .engine import Engine
from .values import EngineSignal


def load_tasks(pid):
    import contracts
    d = os.path.dirname(contracts.__file__)
    mods = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f[0] == 'c' and f[1:3].isdigit():
            pids = f.split('_')[0].upper()
            mods.append(f[:-3])
    for m in mods:
        if m.upper().startswith(pid + '_') or m.startswith('call_'):
            importlib.import_module('contracts.' + m)
    return contracts.TASKS.get(pid, [])


def run_task(name, fn, timeout_ms=6000, budget=120):
    e = Engine(name, timeout_ms=timeout_ms, deadline=time.time() + budget)
    try:
        return e.run(fn)
    except EngineSignal as s:
        e.res.unsupported = repr(s)
    except Exception:
        e.res.error = traceback.format_exc()[-1500:]
    return e.res


import pyvc.engine
if __name__ == '__main__':
    pid = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    for name, fn in load_tasks(pid):
        if pat not in name:
            continue
        r = run_task(name, fn)
        n = sum(o.proved + o.refuted + o.unknown for o in r.obligations.values())
        print('%-11s %3d obl %3d paths %5.1fs  %s' % (r.status, n, r.paths, r.time, name))
        if r.error:
            print(r.error)
        if r.unsupported:
            print('   unsupported:', r.unsupported)
        for o in r.obligations.values():
            if o.status != 'proved':
                print('   ', o.status, o.name, 'abstract' if o.abstract else '')
                print('      ', str(o.detail)[:1200])
        if '-v' in sys.argv:
            for o in r.obligations.values():
                print('      ', o.status, o.proved, o.name)
            for k, v in r.loops.items():
                print('   loop', k, v.dropped, v.cells)
