"""Positioning in a shared stream and the transfer that follows are one step."""
import re
from ..core import *
from ..locks import held, index_key
from ..inline import inline
from ..facts import AnalysisBroken
from .C23 import call_map, closure
from .iofail import functors
from . import C22
ASSUME = ['a list of open streams given to the library names different streams', 'HDF5 files are covered by C01 (one library-wide lock)',
          'an archive is not created, closed or destroyed while other threads use it']

STREAM = re.compile(r'std::(basic_)?(i|o|io)?(f|string)?(stream|ios)\b')
POSOP = {'seekg', 'seekp'}
XFER = {'read', 'write', 'get', 'put', 'getline', 'readsome', 'operator>>', 'operator<<'}
OTHER = {'tellg', 'tellp', 'clear', 'flush', 'ignore', 'peek', 'unget', 'putback', 'setstate', 'sync'}
NS = 'Alembic::Ogawa::'

def last(n): return (n.get('q') or '').split('::')[-1]

def top(db, cls):
    """the class a nested private class belongs to"""
    p = cls.split('::')
    for i in range(3, len(p) + 1):
        c = '::'.join(p[:i])
        if c in db.recs or any((d.get('cls') or '') == c for d in db.decl.values()): return c
    return cls

class Roots:
    """members of a class that other threads may enter: not constructors, destructors,
    or helpers only those call"""
    def __init__(self, db):
        self.db = db; self.rev = {}
        for a, l in call_map(db).items():
            for b in l: self.rev.setdefault(b, set()).add(a)
        self.memo = {}
    def building(self, k, d=0):
        if k in self.memo: return self.memo[k]
        self.memo[k] = True
        D = self.db.decl[k]
        if D.get('ctor') or D.get('dtor'): return True
        cs = [c for c in self.rev.get(k, ()) if c != k]
        t = top(self.db, D.get('cls') or '')
        r = bool(cs) and bool(D.get('acc') or not D.get('cls')) and all((not self.db.decl[c].get('cls') or top(self.db, self.db.decl[c].get('cls') or '') == t) and self.building(c) for c in cs)
        self.memo[k] = r
        return r

def origins(f, i, d=0, seen=None):
    """where a stream expression comes from: [('member', path, index key) | ('new',) | ('param',) | ('?',)]"""
    seen = set() if seen is None else seen
    if i is None or i < 0 or d > 15: return [('?',)]
    n = f.nodes[i]; o = n['o']
    if o in ('load', 'cast'): return origins(f, n['a'][0], d + 1, seen)
    if o == 'un' and n['op'] in ('*', '&'): return origins(f, n['a'][0], d + 1, seen)
    if o in ('null',) or n.get('v') == 0: return []
    if o == 'new': return [('new',)]
    if o == 'mem':
        p = path(f, i)
        return [('member', n['m'], None, p)]
    if o == 'cond': return origins(f, n['a'][1], d + 1, seen) + origins(f, n['a'][2], d + 1, seen)
    if o == 'idx': 
        return [('member', x[1], index_key(f, n['a'][1]), x[3]) if x[0] == 'member' else x for x in origins(f, n['a'][0], d + 1, seen)]
    if o == 'call':
        l = last(n)
        if l in ('operator[]', 'at') and 'obj' in n:
            return [('member', x[1], index_key(f, n['a'][0]), x[3]) if x[0] == 'member' else x for x in origins(f, n['obj'], d + 1, seen)]
        if 'obj' in n and (l in POSOP | XFER | OTHER or l in ('get', 'operator*', 'operator->', 'front', 'back', 'begin')): return origins(f, n['obj'], d + 1, seen)
        if 'dynamic_cast' in l and n.get('a'): return origins(f, n['a'][0], d + 1, seen)
        return [('?',)]
    if o == 'var':
        if n['d'] in seen: return []
        seen.add(n['d'])
        v = f.vars[n['d']]
        from ..slices import defs
        r = []
        if v.get('p', -1) >= 0 and n['d'] not in refinit(f) and not getattr(f, 'inl', False): r.append(('param',))
        for x in vdefs(f).get(n['d'], ()): r += origins(f, x, d + 1, seen)
        return r or [('?',)]
    return [('?',)]

def vdefs(f):
    c = f.__dict__.get('_vdefs')
    if c is None:
        c = {}
        for b, i, e in f.elems():
            if isinstance(e, dict):
                if e['e'] == 'decl' and e.get('n', -1) is not None and e.get('n', -1) >= 0: c.setdefault(e['d'], []).append(e['n'])
            else:
                n = f.nodes[e]
                if n['o'] == 'asn' and n.get('op') == '=':
                    t = f.nodes[strip(f, n['a'][0])]
                    if t['o'] == 'var': c.setdefault(t['d'], []).append(n['a'][1])
        for d, x in refinit(f).items():
            if x is not None and x >= 0: c.setdefault(d, []).append(x)
        f._vdefs = c
    return c

def streamop(f, n):
    if n['o'] != 'call' or 'obj' not in n or not re.match(r'std::basic_(i|o|io)?f?(stream|ios)\b', n.get('q') or ''): return None
    l = last(n)
    return l if l in POSOP | XFER | OTHER else None

def run(ctx):
    db = ctx.db
    ctx.rule('guard', 'every use of a shared stream is made under the lock that belongs to it', 4)
    ctx.rule('step', 'a read follows a positioning made in the same critical section, on the same stream', 1)
    ctx.rule('place', 'the position asked for is the one the caller gave, counted from where that stream starts', 1)
    ctx.rule('own', 'two locks never guard one stream: the streams are opened separately and their locks are made once', 2)
    ctx.rule('private', 'the streams are reached only by the class that locks them', 2)
    ctx.rule('state', 'reading changes no state shared between readers except under a lock', 4)
    ctx.rule('writer', 'threads that write reach the output stream one at a time', 2)
    R = Roots(db)
    sm = {}       # class -> members that hold streams
    for q, r in db.recs.items():
        if not q.startswith(NS): continue
        for m in r['f']:
            if STREAM.search(m['t']): sm.setdefault(top(db, q), set()).add(q + '::' + m['n'])
    if not sm: raise AnalysisBroken('no Ogawa class holds a stream')
    allm = set().union(*sm.values())
    # who touches them
    for m in sorted(allm):
        t = [c for c, s in sm.items() if m in s][0]
        bad = None; 
        for k in sorted(db.raw):
            d = db.decl[k]; f = None
            if top(db, d.get('cls') or '') == t: continue
            if m not in str(db.raw[k]): continue
            f = db.fn(k)
            home = {db.fn(x).file for x in db.raw if top(db, db.decl[x].get('cls') or '') == t and not db.decl[x].get('implicit')}
            for i, n in enumerate(f.nodes):
                if n['o'] == 'mem' and n['m'] == m and not (not d.get('cls') and f.file in home): bad = (f, i)
        ctx.ob('private', m, bad is None, bad[0].loc(bad[1]) if bad else '', 'used outside its class' if bad else '', bad[0] if bad else None)
    leak(ctx, db, allm)
    done = set()
    for k in sorted(db.raw):
        d = db.decl[k]; c = d.get('cls') or ''
        if top(db, c) not in sm or R.building(k): continue
        if d.get('acc') and any(top(db, db.decl[x].get('cls') or '') == top(db, c) for x in R.rev.get(k, ()) if x != k): continue
        T = top(db, c)
        home = db.fn(k).file
        f = inline(db, k, lambda g, n, t: t != k and t in db.raw and not db.decl[t].get('ctor') and not db.decl[t].get('dtor') and (top(db, db.decl[t].get('cls') or '') == T or not db.decl[t].get('cls') and db.fn(t).file == home))
        H = held(f)
        guardstep(ctx, db, f, H, allm)
    own(ctx, db, sm, allm, R)
    state(ctx, db, R)
    writers(ctx, db)

def leak(ctx, db, allm):
    for m in sorted(allm):
        for k in sorted(db.raw):
            if m not in str(db.raw[k]): continue
            f = db.fn(k)
            rt = f.decl.get('rt') or ''
            if not STREAM.search(rt): continue
            hit = [e for b, i, e in f.elems() if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0 and any(x[0] == 'member' for x in origins(f, e['n']))]
            if hit and not f.decl.get('acc'): ctx.ob('private', '%s from %s' % (m, f.q), False, f.loc(), 'hands the shared stream out', f)

def lockset(H, b, i): return frozenset(x for x in H.before(b, i) if '.' in x[0] or '::' in x[0])

def guardstep(ctx, db, f, H, allm):
    ops = []
    for b, i, e in f.elems():
        if not isinstance(e, int): continue
        o = streamop(f, f.nodes[e])
        if o is None: continue
        src = origins(f, f.nodes[e]['obj'])
        mem = [x for x in src if x[0] == 'member' and x[1] in allm]
        if not mem: continue
        ops.append((b, i, e, o, mem))
    if not ops: return
    # only marking an output stream as finished, which the owner does
    done = db.decl[f.k]['q'].endswith('::finish')
    by = {}
    for b, i, e, o, mem in ops:
        hs = H.before(b, i)
        ok = done
        for x in mem:
            for h in hs:
                cls = x[1].rsplit('::', 1)[0]
                if not h[0].startswith(cls): continue
                if x[2] is None and not h[0].endswith('[]') or x[2] is not None and h[2] is not None and same_index(f, h[2], x[2]): ok = True
        key = '%s#%s' % (f.q, o)
        g = by.setdefault(key, [True, e])
        if not ok and g[0]: by[key] = [False, e]
    for key, (ok, e) in sorted(by.items()):
        ctx.ob('guard', key, ok, f.loc(e), '' if ok else 'uses a shared stream without holding the lock that belongs to it', f)
    reads = [x for x in ops if x[3] in XFER and re.match(r'std::basic_(i|io)', f.nodes[x[2]].get('q') or '')]
    for n, (b, i, e, o, mem) in enumerate(sorted(reads)):
        bad = unpositioned(f, H, b, i, mem, ops)
        ctx.ob('step', '%s#%d' % (f.q, n), bad is None, f.loc(e), bad or '', f)
    for n, (b, i, e, o, mem) in enumerate(sorted(x for x in ops if x[3] == 'seekg')):
        a = f.nodes[e].get('a') or []
        cl = expand(f, a[0]) if a else []
        par = any(f.nodes[x]['o'] == 'var' and f.vars[f.nodes[x]['d']].get('p', -1) >= 0 and 'long' in f.vars[f.nodes[x]['d']]['t'] for x in cl)
        offs = [x for x in cl if f.nodes[x]['o'] in ('call', 'idx') and 'offset' in (path(f, x) or '')] 
        ix = [index_key(f, f.nodes[x]['a'][-1]) for x in cl if f.nodes[x]['o'] == 'idx' or f.nodes[x]['o'] == 'call' and last(f.nodes[x]) in ('operator[]', 'at')]
        si = [m[2] for m in mem if m[2] is not None]
        ok = par and bool(ix) and all(same_index(f, x, y) for x in ix for y in si)
        ctx.ob('place', '%s#%d' % (f.q, n), ok, f.loc(e), '' if ok else 'positions the stream elsewhere than where the caller asked, counted from where this stream starts', f)

def expand(f, i, d=0, seen=None):
    """closure of an expression through local variables set once"""
    seen = set() if seen is None else seen
    out = []
    for x in closure(f, i):
        if x in seen: continue
        seen.add(x); out.append(x)
        n = f.nodes[x]
        if n['o'] == 'var' and d < 8:
            for y in vdefs(f).get(n['d'], ()): out += expand(f, y, d + 1, seen)
    return out

def same_index(f, a, b): return a == b or alias(f, a) & alias(f, b) != set()

def alias(f, p):
    """names of variables that always equal p"""
    out = {p}
    m = re.match(r'v(\d+)$', p or '')
    if m:
        ds = vdefs(f).get(int(m.group(1)), ())
        if len(ds) == 1: out.add(path(f, ds[0]) or str(f.nodes[strip(f, ds[0])].get('v')))
    return out

def unpositioned(f, H, b, i, mem, ops):
    """backwards: is there a way to reach the read without positioning since the lock was taken?"""
    need = set(H.before(b, i))
    pos = {(x[0], x[1]) for x in ops if x[3] in POSOP and {y[1:3] for y in x[4]} & {y[1:3] for y in mem}}
    svars = {f.nodes[x]['d'] for x in expand(f, f.nodes[[e for bb, ii, e, o, m in ops if (bb, ii) == (b, i)][0]]['obj']) if f.nodes[x]['o'] == 'var'}
    pred = {}
    for a, bl in f.blocks.items():
        for s in bl['su']:
            if s in f.blocks: pred.setdefault(s, set()).add(a)
    seen = set(); w = [(b, i - 1)]
    while w:
        bb, j = w.pop()
        el = f.blocks[bb]['el']
        stop = False
        while j >= 0:
            if (bb, j) in pos: stop = True; break
            if not (need & set(H.before(bb, j + 1))) : return 'reads after the lock was given up or before it was taken since positioning'
            e = el[j]
            if isinstance(e, int) and f.nodes[e]['o'] == 'asn':
                t = f.nodes[strip(f, f.nodes[e]['a'][0])]
                if t['o'] == 'var' and t['d'] in svars: return 'reads from a stream that was not positioned'
            j -= 1
        if stop: continue
        if bb == f.entry: return 'reads without positioning'
        if not (need & set(H.before(bb, 0))): return 'reads after the lock was given up or before it was taken since positioning'
        for p in pred.get(bb, ()):
            if p not in seen:
                seen.add(p); w.append((p, len(f.blocks[p]['el']) - 1))
    return None

GROW = {'push_back', 'resize', 'insert', 'erase', 'clear', 'assign', 'pop_back', 'swap', 'emplace_back', 'operator='}

def own(ctx, db, sm, allm, R):
    for T, ms in sorted(sm.items()):
        vec = {m for m in ms if any('vector' in x['t'] for x in db.recs[m.rsplit('::', 1)[0]]['f'] if m.endswith('::' + x['n']))}
        if not vec: continue
        cls = sorted(vec)[0].rsplit('::', 1)[0]
        lk = {cls + '::' + x['n'] for x in db.recs[cls]['f'] if 'mutex' in x['t'] and '*' in x['t'] or 'mutex' in x['t'] and 'vector' in x['t']}
        for k in sorted(db.raw):
            d = db.decl[k]
            if top(db, d.get('cls') or '') != T or d.get('implicit'): continue
            f = db.fn(k)
            bad = []; n0 = 0
            for b, i, e in f.elems():
                if not isinstance(e, int): continue
                n = f.nodes[e]
                if n['o'] == 'call' and 'obj' in n:
                    o = f.nodes[strip(f, n['obj'])]
                    if o['o'] == 'mem' and o['m'] in vec and last(n) in GROW:
                        n0 += 1
                        if not R.building(k): bad.append((e, 'changes the list of streams while others use it'))
                        if last(n) in ('resize', 'assign', 'insert') and len(n.get('a', ())) >= 2:
                            x = f.nodes[strip(f, n['a'][1])]
                            if not (x['o'] == 'null' or x.get('v') == 0) and 'iterator' not in x.get('t', ''):
                                bad.append((e, 'makes several slots share one stream'))
                if n['o'] == 'asn':
                    t = f.nodes[strip(f, n['a'][0])]
                    if t['o'] == 'mem' and t['m'] in lk:
                        n0 += 1
                        if not R.building(k): bad.append((e, 'replaces the locks while others use them'))
                    og = [x for x in origins(f, strip(f, n['a'][0])) if x[0] == 'member' and x[1] in vec] if t['o'] in ('call', 'idx') else []
                    if og:
                        n0 += 1
                        src = origins(f, n['a'][1])
                        if not all(x[0] == 'new' for x in src): bad.append((e, 'puts a stream that is in use elsewhere into a slot with a lock of its own'))
            if n0: ctx.ob('own', f.q + ('' if not d.get('ctor') else ' ' + ','.join(d.get('pt', ()))[:30]), not bad, f.loc(bad[0][0]) if bad else f.loc(), bad[0][1] if bad else '', f)
        # the locks are made after the list has its final length
        for k in sorted(db.raw):
            d = db.decl[k]
            if top(db, d.get('cls') or '') != T: continue
            f = db.fn(k)
            for b, i, e in f.elems():
                if not isinstance(e, int) or f.nodes[e]['o'] != 'asn': continue
                t = f.nodes[strip(f, f.nodes[e]['a'][0])]
                if t['o'] != 'mem' or t['m'] not in lk: continue
                nw = f.nodes[strip(f, f.nodes[e]['a'][1])]
                if nw['o'] != 'new': continue
                # growth after this point in the function
                after = reach(f, b, i)
                late = [x for x in after if f.nodes[x]['o'] == 'call' and 'obj' in f.nodes[x] and f.nodes[strip(f, f.nodes[x]['obj'])].get('m') in vec and last(f.nodes[x]) in ('push_back', 'resize', 'insert', 'assign')]
                ctx.ob('own', 'locks in %s %s' % (f.q, ','.join(d.get('pt', ()))[:30]), not late, f.loc(late[0]) if late else f.loc(e), 'more streams than locks' if late else '', f)

def reach(f, b, i):
    out = []; seen = set(); w = [(b, i + 1)]
    while w:
        bb, j = w.pop()
        for e in f.blocks[bb]['el'][j:]:
            if isinstance(e, int): out.append(e)
        for s in f.blocks[bb]['su']:
            if s in f.blocks and s not in seen: seen.add(s); w.append((s, 0))
    return out

READERS = ('Alembic::Ogawa::IStreams', 'Alembic::Ogawa::IData', 'Alembic::Ogawa::IGroup', 'Alembic::Ogawa::IArchive',
           'Field3D::OgIBase', 'Field3D::OgIAttribute', 'Field3D::OgIDataset', 'Field3D::OgICDataset', 'Field3D::OgIGroup', 'Field3D::OgISparseDataset')

def state(ctx, db, R):
    for k in sorted(db.raw):
        d = db.decl[k]; c = top(db, d.get('cls') or '') if (d.get('cls') or '').startswith(NS) else re.sub(r'<.*', '', d.get('cls') or '')
        if c not in READERS or d.get('implicit') or R.building(k) or 'operator=' in d['q']: continue
        # a private helper is judged where it is called
        if d.get('acc') and any(top(db, db.decl[x].get('cls') or '') == top(db, d.get('cls') or '') for x in R.rev.get(k, ()) if x != k): continue
        T = top(db, d.get('cls') or '')
        f = inline(db, k, lambda g, n, t: t != k and t in db.raw and db.decl[t].get('acc') and not db.decl[t].get('ctor') and not db.decl[t].get('dtor') and top(db, db.decl[t].get('cls') or '') == T)
        H = held(f); bad = None
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]; t = None
            if n['o'] == 'asn': t = n['a'][0]
            elif n['o'] == 'un' and n['op'] in ('++', '--'): t = n['a'][0]
            elif n['o'] == 'call' and 'obj' in n and last(n) in GROW | {'reset'} and not n.get('const'): t = n['obj']
            elif n['o'] == 'asn': t = n['a'][0]
            if t is None: continue
            if streamop(f, n): continue
            p = path(f, t) or ''
            # through local pointers and references
            r = [p] + [path(f, y) or '' for x in expand(f, t) if f.nodes[x]['o'] == 'var' and ('&' in f.vars[f.nodes[x]['d']]['t'] or '*' in f.vars[f.nodes[x]['d']]['t']) and p != 'v%d' % f.nodes[x]['d'] for y in vdefs(f).get(f.nodes[x]['d'], ())]
            if any(x.startswith('this.') for x in r) and not H.before(b, i): bad = (e, p)
        for i, n in enumerate(f.nodes):
            if n['o'] == 'gvar' and n.get('static') and not n.get('const'): bad = bad or (i, n.get('q'))
        ctx.ob('state', f.q, bad is None, f.loc(bad[0]) if bad else f.loc(), 'changes %s, which other readers share, without a lock' % bad[1] if bad else '', f)

def writers(ctx, db):
    """a thread body that reaches the output stream does so under a lock of its shared state"""
    cm = call_map(db)
    out = {k for k in db.raw if (db.decl[k].get('cls') or '').startswith(NS + 'OStream') and not db.decl[k].get('ctor') and not db.decl[k].get('dtor') and last(db.decl[k]) not in ('isValid',)}
    hit = set(out); ch = True
    while ch:
        ch = False
        for a, l in cm.items():
            if a not in hit and l & hit: hit.add(a); ch = True
    turns = None
    for k in sorted(functors(db)):
        fl = db.fn(k).file
        if k not in hit: continue
        f = inline(db, k, lambda g, n, t: t in db.raw and db.fn(t).file == fl and not db.decl[t].get('ctor'), depth=4)
        H = held(f); bad = None; n0 = 0; W = None
        key = re.sub(r'^Field3D::(\(anon\)::)?', '', db.fn(k).name)
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] not in ('call', 'ctor') or not n.get('f') or not set(db.targets(n)) & hit: continue
            n0 += 1
            if H.before(b, i): continue
            # no lock: the thread must have waited for its turn (C22, rule order)
            if turns is None: turns = Turns(db)
            W = W or C22.Worker(db, k)
            if not (W.turn and W.append(n) and turns.ok.get(key)): bad = e
        if n0: ctx.ob('writer', key, bad is None, f.loc(bad) if bad is not None else f.loc(), 'several threads may move in the output stream at once' if bad is not None else '', f)

class Turns:
    """obligations of C22 about appending in turn, by thread body"""
    def __init__(self, db):
        self.db = db; self.ok = {}
        C22.run(self)
    def rule(self, *a): pass
    def ob(self, rule, key, ok, *a):
        if rule == 'order': self.ok[key] = ok
