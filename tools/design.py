"""Rewrite DESIGN.md from tools/design_head.md, the rule modules' last evidence, claims, findings and seeds."""
import json, os, glob
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cl = json.load(open(V + '/tools/claims.json')); kf = json.load(open(V + '/known_findings.json'))
seeds = {}
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(p)), m))
o = [open(V + '/tools/design_head.md').read()]
o.append('## Properties decided\n')
for p in props:
    i = p['id']
    if i not in cl['claimed']: continue
    e = json.load(open(V + '/evidence/%s.json' % i)); c = [x.replace('static analysis: static', 'static') for x in cl['claimed'][i]]; v = e['coverage']
    o.append('### %s %s\n' % (i, p['title']))
    o.append('%s. Scope: %s.\n' % (c[0][0].upper() + c[0][1:], c[1].rstrip('.')))
    o.append('Rules (instances on the current tree):')
    for r in v['rules']: o.append('- `%s` (%d): %s' % (r['rule'], r['instances'], r['text']))
    if e['assumptions']:
        o.append('\nAssumptions and tolerances:')
        for a in e['assumptions']: o.append('- %s' % a)
    f = [x for x in kf['findings'] if x['property'] == i]
    if f:
        o.append('\nKnown findings (not repaired):')
        for x in f: o.append('- `%s` / `%s`: %s' % (x['rule'], x['key'], x['what']))
    f = [x.split(' ', 2)[2] for x in kf['fixed'] if 'property=%s ' % i in x]
    if f:
        o.append('\nDefects found and repaired (commit in /repo, what failed):')
        for x in f: o.append('- %s' % x)
    for s, m in seeds.get(i, []):
        o.append('\nPlanted: `seeded/%s` (caught): %s; needs %s.' % (s, m['what_it_breaks'], m['needs']))
    o.append('')
o.append('## Not decided by static analysis here\n')
for p in props:
    i = p['id']
    if i in cl['claimed']: continue
    o.append('- **%s %s**: %s' % (i, p['title'], cl['na'].get(i, '')))
    for x in kf['fixed']:
        if 'property=%s ' % i in x: o.append('  - repaired all the same: %s' % x.split(' ', 2)[2])
o.append('\n' + open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
