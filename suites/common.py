"""Support for the bounded suites: executable forms of the contracts, run on the real code.

A suite module defines run(S).  It calls S.case(...) per case tried and S.fail(...)
per violated contract.  The outcome is a JSON file read by check.py."""
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('PYVC_REPO', '/repo')


class Suite:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.n = 0
        self.nontrivial = set()
        self.samples = []
        self.fails = []
        self.failkeys = set()
        self.t0 = time.time()
        self.stats = {}
        self.budget = float(os.environ.get('VERIF_SUITE_BUDGET', '120' if not self.thorough else '500'))
        self.notes = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def case(self, key=None, sample=None):
        self.n += 1
        if key is not None:
            self.nontrivial.add(hash(key) if not isinstance(key, (int, str)) else key)
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample if isinstance(sample, str) else repr(sample))

    def count(self, name, k=1):
        self.stats[name] = self.stats.get(name, 0) + k

    def fail(self, key, what, detail='', repro=''):
        """key: stable identification of the failing input / call site (for known findings)"""
        if key in self.failkeys:
            return
        self.failkeys.add(key)
        self.fails.append(dict(key=key, what=what, detail=str(detail)[:6000], repro=str(repro)[:20000]))

    def check(self, cond, key, what, detail='', repro=''):
        if not cond:
            self.fail(key, what, detail() if callable(detail) else detail, repro() if callable(repro) else repro)
        return bool(cond)

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump(dict(evaluations=self.n, distinct_nontrivial=len(self.nontrivial), samples=self.samples,
                           fails=self.fails, stats=self.stats, notes=self.notes, wall=time.time() - self.t0), f)


class fresh:
    """the type registries as they are now, restored afterwards (modules declared inside do not meet)"""

    def __enter__(self):
        from pybindgen.typehandlers import base
        self.saved = [(m, {k: self.copy(v) for k, v in vars(m).items()}) for m in (base.param_type_matcher, base.return_type_matcher)]

    @classmethod
    def copy(cls, v):
        if isinstance(v, dict):
            new = type(v)()
            for k, x in v.items():
                new[k] = list(x) if isinstance(x, list) else x
            return new
        return list(v) if isinstance(v, list) else v

    def __exit__(self, *exc):
        for m, d in self.saved:
            m.__dict__.clear()
            m.__dict__.update(d)


def main():
    pid, tier, seed, out = sys.argv[1:5]
    import importlib
    S = Suite(pid, tier, int(seed))
    import pybindgen
    assert os.path.realpath(pybindgen.__file__).startswith(os.path.realpath(REPO)), pybindgen.__file__
    mod = importlib.import_module('suites.' + pid.lower())
    S.rule = getattr(mod, 'RULE', '')
    try:
        mod.run(S)
    except Exception:
        # an exception out of the code under test at a place where the suite expects none
        tb = traceback.format_exc()
        last = traceback.extract_tb(sys.exc_info()[2])[-1]
        if any(os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + '/')
               for fr in traceback.extract_tb(sys.exc_info()[2])):
            S.fail('exception:%s:%s' % (type(sys.exc_info()[1]).__name__, last.name),
                   'unexpected exception from the code under test', tb, '')
        else:
            S.notes.append('SUITE-ERROR ' + tb)
            S.dump(out)
            print(tb, file=sys.stderr)
            sys.exit(3)
    S.dump(out)


if __name__ == '__main__':
    main()
