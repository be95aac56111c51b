"""DESIGN.md from dev/design.md: titles, contract lists (decorators) and the table of planted bugs."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/dev/design.md').read()
P = dict((d['id'], d) for d in map(json.loads, open(H + '/properties.jsonl')))
M = dict((c['property'], c) for c in json.load(open(H + '/MANIFEST.json')).get('checks', []) if 'property' in c)
for k, d in P.items():
    t = t.replace('@%s@\n' % k, '\n**%s %s**  \n' % (k, d['title']))
rows = ['| planted | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda s: re.sub(r'\s+', ' ', s).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], c(m['what_it_breaks']), c(m['needs'])))
t = t.replace('@SEEDS@', '\n'.join(rows))
L = []
for k in sorted(P):
    fs = sorted(glob.glob(H + '/contracts/%s_*.py' % k.lower()))
    names = []
    for f in fs:
        for x in ast.walk(ast.parse(open(f).read())):
            if isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'task' and len(x.args) == 2 and isinstance(x.args[1], ast.Constant):
                names.append('  - %s' % x.args[1].value)
            elif isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'task' and len(x.args) == 2:
                names.append('  - %s' % ast.unparse(x.args[1]))
    if names:
        L.append('* %s\n%s' % (k, '\n'.join(names)))
t = t.replace('@CONTRACTS@', '\n'.join(L))
open(H + '/DESIGN.md', 'w').write(t)
