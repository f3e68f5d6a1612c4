"""Assemble DESIGN.md."""
import ast, glob, json, os, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(*p): return open(os.path.join(V, *p)).read()
MORE = {}
exec(rd('tools', 'design_notes.py'))
out = [rd('tools', 'design_head.md'), '## 3. The properties\n']
man = json.loads(rd('MANIFEST.json'))
claimed = {c['property']: c for c in man['checks']}
seeds = []
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    seeds.append((os.path.basename(os.path.dirname(d)), json.load(open(d))))
caught = {}
if os.path.exists(os.path.join(V, 'tools', 'seed_results.txt')):
    for l in rd('tools', 'seed_results.txt').split('\n'):
        if l.strip():
            a, b = l.split(None, 1)
            caught[a] = b
def wrap(s, **k): return textwrap.fill(' '.join(s.split()), 130, **k)
for l in rd('properties.jsonl').strip().split('\n'):
    p = json.loads(l)
    i = p['id']
    if i not in claimed:
        continue
    m = ast.get_docstring(ast.parse(rd('sa', 'checks', i.lower() + '.py')))
    ev = {}
    e = os.path.join(V, 'evidence', i + '.json')
    if os.path.exists(e):
        ev = json.load(open(e))
    c = ev.get('coverage', {})
    out.append('### %s %s\n' % (i, p['title']))
    out.append(wrap('*Property.* ' + p['statement']) + '\n')
    out.append(wrap('*Decided by.* ' + m) + '\n')
    if i in MORE:
        out.append(wrap('*Notes.* ' + MORE[i]) + '\n')
    if c:
        und = sorted(c['undecided'])
        out.append(wrap('*Level and extent.* %s; %d obligations, %d discharged, %d undecided; %d functions, %d path ends; about %d s.' % (
            claimed[i]['level'], c['obligations'], c['discharged'], len(und), c['functions_count'], c['path_ends_examined'], max(1, ev['wall_s']))
            + (' Undecided: ' + '; '.join(und) + '.' if und else '')) + '\n')
    out.append(wrap('*Beyond tests.* ' + p['why_tests_cant'] + ' The rule covers it ' + p['quantifier']['text'] + '.') + '\n')
out.append(rd('tools', 'design_tail.md'))
out.append('\n## 6. Planted bugs\n\nEach in `seeded/<id>/`, confirmed in a scratch copy: builds, passes the tests, its demonstration fails with it and passes without.\n')
out.append('| id | breaks | needs | caught by |\n|---|---|---|---|')
for i, m in seeds:
    out.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], caught.get(i, '?')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
