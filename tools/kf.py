"""Edit known_findings.json: kf.py add P RULE KEY WHAT | kf.py fixed P COMMIT WHAT"""
import json, sys
p = '/verif/known_findings.json'; d = json.load(open(p))
if sys.argv[1] == 'add': d['findings'].append(dict(property=sys.argv[2], rule=sys.argv[3], key=sys.argv[4], what=sys.argv[5]))
else: d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[2:5]))
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
