"""Rewrite MANIFEST.json from the rule modules present and tools/claims.json."""
import json, os
V = '/verif'
cl = json.load(open(V + '/tools/claims.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in cl['claimed'] and os.path.exists(V + '/vp/rules/%s.py' % i):
        c = cl['claimed'][i]
        checks.append(dict(property=i, quick_cmd='python3 -m vp.check %s --tier quick' % i,
                           thorough_cmd='python3 -m vp.check %s --tier thorough' % i,
                           technique=c[0], level='other', level_note=c[1]))
    else: na.append(dict(property=i, reason=cl['na'].get(i, 'no sound check of this property has been completed; see DESIGN.md')))
json.dump(dict(version=1, setup_cmd='bash tools/build.sh', checks=checks, not_applicable=na,
               notes='Static analysis only: a libTooling extractor lowers /repo to a resolved IR on every run, rule modules in vp/rules decide each property. No hooks in /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'n/a')
