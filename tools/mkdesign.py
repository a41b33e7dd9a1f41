"""Assemble DESIGN.md from notes/design, the rules' statements, MANIFEST.json and seeded/*/meta.json."""
import ast, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl') if l.strip()]
man = json.load(open(R + '/MANIFEST.json'))
tech = {c['property']: c['technique'] for c in man['checks']}
out = [open(R + '/notes/design/head.md').read(), '\n## Properties and how each is decided\n']
for p in props:
    f = R + '/nialint/rules/%s.py' % p['id'].lower()
    if p['id'] not in tech: continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('%s  \n*Technique:* %s  \n*Decides:* %s  ' % (p.get('statement', ''), tech[p['id']].split(': ', 1)[-1], d.get('RULE', '')))
    out.append('*Assumes:* %s.\n' % '; '.join(d.get('ASSUMPTIONS', [])))
out.append('\n' + open(R + '/notes/design/tail.md').read())
out.append('\n## Planted bugs\n\nEach is caught by the check of its property (exit 1, its VIOLATION line) and quiet otherwise.\n\n| id | what it breaks | needs |\n|---|---|---|')
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append('| %s | %s | %s |' % (f.split('/')[-2], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
out.append('\n## Repairs in /repo\n\n```\n' + ''.join(l for l in open(R + '/known_findings.txt') if re.match('(fixed|known):', l)) + '```')
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
