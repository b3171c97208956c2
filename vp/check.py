"""python3 -m vp.check ID [--tier quick|thorough]
Exit 0: every obligation of the property holds (known findings are printed);
exit 1: VIOLATION line; exit 2: the analysis itself is broken."""
import importlib, json, os, sys, time, traceback
from .facts import DB, AnalysisBroken, VERIF, REPO

class Ctx:
    def __init__(self, db, pid, tier):
        self.db, self.pid, self.tier = db, pid, tier
        self.obs = []          # (rule, key, ok, loc, msg)
        self.seen = {}
        self.rules = {}        # rule -> text
        self.fns = set()
        self.notes = []
    def rule(self, name, text, floor=1):
        self.rules[name] = (text, floor)
    def ob(self, rule, key, ok, loc='', msg='', fn=None):
        assert rule in self.rules, rule
        if fn is not None: self.fns.add(fn.k)
        # several instantiations of one source construct count once; worst wins
        k = (rule, key)
        if k in self.seen:
            i = self.seen[k]
            if not ok and self.obs[i][2]: self.obs[i] = (rule, key, ok, loc, msg)
            return ok
        self.seen[k] = len(self.obs)
        self.obs.append((rule, key, bool(ok), loc, msg))
        return ok

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        db = DB()
        ctx = Ctx(db, pid, tier)
        m = importlib.import_module('vp.rules.' + pid)
        m.run(ctx)
        counts = {}
        for r, k, ok, l, msg in ctx.obs: counts.setdefault(r, [0, 0]); counts[r][0] += 1; counts[r][1] += ok
        for r, (text, floor) in ctx.rules.items():
            if counts.get(r, [0])[0] < floor and all(o[2] for o in ctx.obs):
                raise AnalysisBroken('rule %s matched %d instances, expected at least %d' % (r, counts.get(r, [0])[0], floor))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); sys.exit(2)
    kf = json.load(open(VERIF + '/known_findings.json'))
    known = {(x['rule'], x['key']): x for x in kf['findings'] if x['property'] == pid}
    bad, kn = [], []
    for o in ctx.obs:
        if o[2]: continue
        (kn if (o[0], o[1]) in known else bad).append(o)
    if '-v' in sys.argv:
        for o in ctx.obs: print('%s %s | %s | %s %s' % ('ok ' if o[2] else 'BAD', o[0], o[1], o[3], o[4]))
    for r, (text, floor) in ctx.rules.items():
        c = counts.get(r, [0, 0])
        print('rule %s: %d instances, %d hold -- %s' % (r, c[0], c[1], text))
    print('analysed %d units, %d function bodies (%d examined by this property)' % (len(db.units), len(db.raw), len(ctx.fns)))
    for o in kn:
        print('KNOWN-FINDING: property=%s [%s] %s: %s %s' % (pid, o[0], o[1], known[(o[0], o[1])]['what'], o[3]))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    rep = VERIF + '/evidence/%s.report.txt' % pid
    with open(rep, 'w') as f:
        for o in bad:
            f.write('VIOLATION of %s, rule %s (%s)\n  instance: %s\n  at: %s\n  %s\n' % (pid, o[0], ctx.rules[o[0]][0], o[1], o[3], o[4]))
        for o in kn: f.write('known finding: %s %s at %s\n' % (o[0], o[1], o[3]))
    samples = ['%s: %s' % (o[0], o[1]) for o in ctx.obs[:: max(1, len(ctx.obs) // 12)]][:14]
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(
                  explanation='Static analysis of the resolved program: every instance below was derived from the current '
                              'source of /repo and decided by the rule named; an instance is one source construct '
                              '(call site, access, function, member or path), template instantiations merged.',
                  obligations=len(ctx.obs), discharged=sum(1 for o in ctx.obs if o[2]),
                  units=len(db.units), function_bodies=len(db.raw), functions_examined=len(ctx.fns),
                  rules=[dict(rule=r, text=t, instances=counts.get(r, [0, 0])[0], hold=counts.get(r, [0, 0])[1]) for r, (t, _) in ctx.rules.items()],
                  samples=samples, known_findings=['%s: %s' % (o[0], o[1]) for o in kn], notes=ctx.notes),
              assumptions=getattr(m, 'ASSUME', []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    for o in bad:
        print('  [%s] %s at %s: %s' % (o[0], o[1], o[3], o[4]))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); sys.exit(1)
    print('property=%s holds: %d obligations' % (pid, len(ctx.obs)))
    sys.exit(0)

if __name__ == '__main__': main()
