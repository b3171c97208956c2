"""Creating a file in keep-existing mode leaves an existing file alone and fails."""
import re
from ..core import *
from ..fail import failing_value
from ..slices import Slice
ASSUME = ['no other process creates the file between the test for it and its creation',
          'stat(), access() and the like succeed for an existing file, H5Fcreate() with H5F_ACC_EXCL fails for one and leaves it alone (documented behaviour)']

EXIST = {'stat': 0, 'stat64': 0, 'lstat': 0, 'lstat64': 0, '__xstat': 0, 'access': 0, 'faccessat': 0, 'open': 3, 'fopen': NZ, 'H5Fis_hdf5': NZ,
         'boost::filesystem::exists': 1, 'std::filesystem::exists': 1}
TRUNC, EXCL = 2, 4
H5 = {'H5Fcreate'}
DESTROY = {'remove', 'unlink', 'unlinkat', 'rename', 'renameat', 'truncate', 'creat', 'creat64', 'std::remove', 'std::rename', 'boost::filesystem::remove', 'std::filesystem::remove',
           'std::filesystem::rename', 'boost::filesystem::rename', 'H5Fdelete'}
STREAM = re.compile(r'^std::(basic_)?(ofstream|fstream|filebuf)(<.*>)?::(basic_)?(ofstream|fstream|filebuf|open)$')
APP = 1      # std::ios_base::app

class Walk:
    """Runs create() and everything it calls with the creation mode known and the file known to exist."""
    def __init__(self, db, exists):
        self.db, self.exists = db, exists
        self.memo = {}; self.bad = []; self.excl = []; self.probe = []; self.plainopen = []
    def names(self, f, a, nm):
        """does the argument carry the file name, and nothing else?"""
        def leaf(g, j, m, out):
            if g.k != f.k: return None
            if m['o'] == 'var': return 'name' if m['d'] in nm else ('other' if f.vars[m['d']]['p'] >= 0 else None)
            if m['o'] == 'str' and m.get('s'): return 'text'
            return None
        return {l for l, s, into in Slice(self.db, leaf, 1, callers=False).of(f, a)}
    def visit(self, k, env0, nm, depth=0):
        db_raw = self.db.raw
        key = k, tuple(sorted(env0.items())), tuple(sorted(nm))
        if key in self.memo: return self.memo[key]
        self.memo[key] = None
        f = self.db.fn(k)
        if f is None or depth > 8: return None
        def hook(ip, i, n, env):
            if n['o'] != 'call' or not n.get('f'): return None
            q = n.get('q') or ''
            if q in EXIST and n.get('a'):
                if self.names(f, n['a'][0], nm) != {'name'}: return None
                v = EXIST[q] if self.exists else {0: -1, 3: -1, NZ: 0, 1: 0}[EXIST[q]]
                self.probe.append((f, i))
                return v if isinstance(v, tuple) else C(v)
            if 'obj' in n and q.split('::')[-1] in ('is_open', 'good', 'operator bool', 'operator!', 'fail'):
                p = path(f, n['obj'])
                if p and p in opened:
                    self.probe.append((f, i))
                    return C(int(self.exists != (q.split('::')[-1] in ('operator!', 'fail'))))
            if q in H5:
                fl = self.flags(ip, n['a'][1], env)
                if fl is not None and fl & EXCL and not fl & TRUNC: return C(-1) if self.exists else C(3)
                return None
            if n['f'] in db_raw:
                r = self.follow(ip, i, n, env, nm, depth)
                return r
            return None
        opened = set()
        for b, _, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and e.get('n', -1) >= 0 and 'ifstream' in f.vars[e['d']]['t']:
                c = f.nodes[e['n']]
                if c['o'] == 'ctor' and c.get('a') and self.names(f, c['a'][0], nm) == {'name'}: opened.add('v%d' % e['d'])
        ip = Const(f, hook=hook)
        def on(bid, j, e, env):
            n = f.nodes[e]
            if n['o'] not in ('call', 'ctor') or not n.get('f'): return
            q = n.get('q') or ''
            if q in H5:
                fl = self.flags(ip, n['a'][1], env)
                if fl is None: self.bad.append((f, e, 'H5Fcreate() with flags that are not known to exclude overwriting'))
                elif fl & TRUNC or not fl & EXCL: self.bad.append((f, e, 'H5Fcreate() is asked to overwrite'))
                else: self.excl.append((f, e))
            elif q in DESTROY: self.bad.append((f, e, 'calls %s()' % q))
            elif STREAM.match(q):
                args = n.get('a', ())
                if len(args) >= 1 and not n.get('copy'):
                    m = ip.val(args[1], env) if len(args) > 1 else None
                    if not (m and m[0] == 'c' and m[1] & APP): self.bad.append((f, e, 'opens a file for writing, which empties it'))
            elif q in ('fopen', 'fopen64', 'std::fopen', 'freopen'):
                m = strconst(f, n['a'][1])
                if m is None or m.startswith('w') and 'x' not in m: self.bad.append((f, e, 'opens a file for writing, which empties it'))
            elif q in ('open', 'open64') and len(n['a']) > 1:
                m = ip.val(n['a'][1], env)
                if not (m and m[0] == 'c') or m[1] & 0o1000: self.bad.append((f, e, 'opens a file for writing, which empties it'))
            elif n['o'] == 'ctor' and n['f'] in db_raw: self.follow(ip, e, n, env, nm, depth)
        ip.on_elem = on
        ip.run(env0=dict(env0))
        vals = {v for kd, v, l, en in ip.exits if kd != 'throw'}
        r = next(iter(vals)) if len(vals) == 1 else None
        self.memo[key] = r
        self.last = ip
        return r
    def flags(self, ip, a, env):
        v = ip.val(a, env)
        if v and v[0] == 'c' and isinstance(v[1], int): return v[1]
        f = ip.f; j = strip(f, a)
        n = f.nodes[j]
        if n['o'] == 'bin' and n['op'] == ',': return self.flags(ip, n['a'][1], env)
        if n['o'] == 'bin' and n['op'] == '|':
            x, y = self.flags(ip, n['a'][0], env), self.flags(ip, n['a'][1], env)
            return None if x is None or y is None else x | y
        if n['o'] == 'cast': return self.flags(ip, n['a'][0], env)
        return None
    def follow(self, ip, i, n, env, nm, depth):
        f = ip.f; r = set()
        for t in self.db.targets(n):
            g = self.db.fn(t)
            if g is None: r.add(None); continue
            e2, n2 = {}, set()
            for p, var in g.params.items():
                if p >= len(n.get('a', ())): continue
                v = ip.val(n['a'][p], env)
                if v is not None and v[0] == 'c': e2['v%d' % var] = v
                if self.names(f, n['a'][p], nm) == {'name'}: n2.add(var)
            r.add(self.visit(t, e2, n2, depth + 1))
        return next(iter(r)) if len(r) == 1 else None

def run(ctx):
    db = ctx.db
    ctx.rule('keep', 'with the keep-existing mode chosen and the file there, nothing that empties, replaces or removes a file is reached', 2)
    ctx.rule('fails', 'with the keep-existing mode chosen and the file there, every way out reports failure', 2)
    ctx.rule('mode', 'the keep-existing mode is a value of its own, and each format knows it', 2)
    n = 0
    for k, d in sorted(db.decl.items()):
        if k not in db.raw or not d.get('cls') or not d['cls'].startswith('Field3D::'): continue
        modes = [(p, t) for p, t in enumerate(d.get('pt', ())) if t.split()[-1].endswith('CreateMode') or t.endswith('::CreateMode')]
        if not modes or d.get('acc', 0): continue
        f = db.fn(k); n += 1
        p, t = modes[0]
        cands = [v for (q, _), v in db.enums.items() if q == t.replace('enum ', '').replace('const ', '').rstrip(' &')]
        vals = dict(x for v in cands for x in v['c'])
        keep = vals.get('FailOnExisting')
        ok = keep is not None and [v for v in vals.values()].count(keep) == 1
        ctx.ob('mode', d['q'], ok, f.loc(), '' if ok else 'no separate value FailOnExisting in ' + t, f)
        if not ok: continue
        name = {v for q, v in f.params.items() if 'string' in f.vars[v]['t'] or 'char' in f.vars[v]['t']}
        w = Walk(db, True)
        w.visit(k, {'v%d' % f.params[p]: C(keep)}, name)
        ip = w.last
        bad = w.bad
        ctx.ob('keep', d['q'], not bad, bad[0][0].loc(bad[0][1]) if bad else f.loc(),
               '' if not bad else 'with FailOnExisting and an existing file, %s %s' % (bad[0][0].q, bad[0][2]), f)
        isf = failing_value(f)
        off = [x for x in ip.exits if x[0] != 'throw' and not isf(x[0], x[1])]
        ctx.ob('fails', d['q'], not off, f.loc() if not off else '%s:%s' % (f.file, off[0][2]),
               '' if not off else 'with FailOnExisting and an existing file, create() may not return failure', f)
        for g in {x[0].k for x in w.probe + w.excl}: ctx.fns.add(g)
        ctx.notes.append('%s: existence tests %d, exclusive creations %d, functions entered %d' % (d['q'], len(w.probe), len(w.excl), len(w.memo)))
    if not n: raise AnalysisBroken('no operation takes a creation mode')
