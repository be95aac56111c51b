"""writes MANIFEST.json and meta.json from the table below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ['z3 4.x (python binding): sequence, array and integer reasoning',
         'pyvc: the VC generator for Python in /verif/pyvc (evaluates the AST of /repo functions; self-tested on mutated bodies)',
         'CPython data model as encoded in pyvc (dict, list, str operations used by the functions under contract)']
MTRUST = ['z3 (python binding)', 'minic: parser and VC generator for the emitted C in /verif/minic',
          'contracts of the CPython C API in /verif/minic/capi.py (assumed, from the CPython documentation)']
exec(open(os.path.join(H, 'dev', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
meta, checks, na = {}, [], []
for p in props:
    i = p['id']
    c = CLAIMS.get(i)
    if c is None:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
        continue
    meta[i] = dict(level=c['level'], trusted=c.get('trusted', MTRUST if c['level'] == 'translation_validation' else TRUST), assumptions=c.get('assumptions', []),
                   rule=c.get('rule', ''), explanation=c['note'])
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                       thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=c['technique'], level=c['level'], level_note=c['note']))
man = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
           hooks=dict(guard='PYBINDGEN_VERIF', enable='no hooks are needed: the checks read and import /repo as it is', source_commits=[]),
           notes='see DESIGN.md')
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
json.dump(meta, open(os.path.join(H, 'meta.json'), 'w'), indent=1)
