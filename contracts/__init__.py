"""Sidecar contracts: tasks(pid) -> list of (name, function(engine))"""
TASKS = {}


def task(pid, name):
    def deco(f):
        for p in (pid if isinstance(pid, (list, tuple)) else [pid]):
            TASKS.setdefault(p, []).append((name, f))
        return f
    return deco


def need(cond, why):
    from pyvc.values import Unsupported
    if not cond:
        raise Unsupported('representation changed: ' + why)
