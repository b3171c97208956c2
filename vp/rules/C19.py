"""Lazily loaded MIP levels become visible only when complete."""
import re
from ..core import *
from ..facts import kids, AnalysisBroken
from ..locks import held, lock_ctor, lock_id
from ..inline import inline
from .C15 import natloops
ASSUME = ['stores become visible to other threads in the order in which they are written (the loaded-marker is a plain pointer)',
          'building a mapping for a loaded level does not fail',
          'methods that change a field (non-const) are not called while other threads use the same field; copying a field that others read is allowed']

def last(n): return (n.get('q') or '').split('::')[-1]

class Cells:
    """the guard, storage and action members of the MIP classes"""
    def __init__(self, db):
        self.raw, self.fld, self.act = set(), set(), set()
        self.cls = set()
        for c, r in db.recs.items():
            if not re.match(r'^Field3D::MIPField<', c): continue
            for x in r['f']:
                t = x['t']
                if re.match(r'^std::vector<[^,]*\*,', t.replace('mutable ', '')) and 'ptr' not in t.split(',')[0]: self.raw.add(x['n'])
                elif 'LazyLoadAction' in t: self.act.add(x['n'])
                elif 'intrusive_ptr' in t and 'vector' in t: self.fld.add(x['n'])
            self.cls.add(c)

def deep(f, i):
    """strip loads, casts, temporaries and smart pointer access"""
    while i is not None and i >= 0:
        n = f.nodes[i]
        if n['o'] in ('load', 'cast') or (n['o'] == 'un' and n['op'] in ('*', '&')): i = n['a'][0]
        elif n['o'] == 'ctor' and len(n.get('a', ())) == 1: i = n['a'][0]
        elif n['o'] == 'call' and 'obj' in n and last(n) in ('get', 'operator->', 'operator*'): i = n['obj']
        else: break
    return i

def elem(f, i, names):
    """(member name, base node, index node) when i denotes an element of one of the named members"""
    n = f.nodes[i]
    if n['o'] == 'call' and 'obj' in n and last(n) in ('operator[]', 'at', 'front', 'back'):
        m = f.nodes[strip(f, n['obj'])]
        if m['o'] == 'mem' and m['n'] in names and 'MIPField' in m['m']:
            return m['n'], m['a'][0], (n['a'][0] if n['a'] else -1)
        if m['o'] == 'var':
            r = refinit(f).get(m['d'])
            if r is not None and r >= 0:
                m = f.nodes[strip(f, r)]
                if m['o'] == 'mem' and m['n'] in names and 'MIPField' in m['m']:
                    return m['n'], m['a'][0], (n['a'][0] if n['a'] else -1)
    if n['o'] == 'var' and f.vars[n['d']].get('ref'):
        r = refinit(f).get(n['d'])
        if r is not None and r >= 0 and strip(f, r) != i: return elem(f, strip(f, r), names)
    return None

class Walk:
    """All paths of one (inlined) method, starting with the level not loaded.

    state: vis  level visible to other threads      lk   a scoped lock has been taken
           ld   load action run                     got  level stored
           map  mapping of the level set            vs   values of locals tested against null"""
    def __init__(self, f, cells, other):
        self.f, self.c, self.other = f, cells, other
        self.h = held(f)
        self.bad = {}            # (rule, what) -> line
        self.n = dict(load=0, pub=0, store=0, use=0, mut=0)
        self.locks = []
        self.ends = []
        self.loops = {}
        for h, body in natloops(f).items():
            for b in body: self.loops.setdefault(b, h)
        self.run()

    def flag(self, r, what, l): self.bad.setdefault((r, what), l)

    # --- values: True (not null), False (null), None
    def ev(self, i, s, d=0):
        f = self.f
        if i is None or i < 0 or d > 25: return None
        n = f.nodes[i]; o = n['o']
        e = elem(f, i, self.c.raw)
        if e: return bool(s['vis'] or (self.other and s['lk']))
        if o == 'null' or o == 'zero' or n.get('v') == 0: return False
        if 'v' in n: return True
        if o in ('load', 'cast'): return self.ev(n['a'][0], s, d + 1)
        if o == 'var': return dict(s['vs']).get(n['d'])
        if o == 'un' and n['op'] == '!':
            v = self.ev(n['a'][0], s, d + 1); return None if v is None else not v
        if o == 'bin' and n['op'] in ('==', '!='):
            a, b = self.ev(n['a'][0], s, d + 1), self.ev(n['a'][1], s, d + 1)
            if a is None or b is None or (a and b): return None
            return (a == b) == (n['op'] == '==')
        if o == 'bin' and n['op'] in ('&&', '||'):
            a, b = self.ev(n['a'][0], s, d + 1), self.ev(n['a'][1], s, d + 1)
            if n['op'] == '&&': return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        return None

    def run(self):
        f = self.f
        s0 = dict(vis=0, lk=0, ld=0, got=0, map=0, vs=())
        todo = [(f.entry, s0)]; seen = set()
        while todo:
            b, s = todo.pop()
            key = (b, tuple(sorted((k, v) for k, v in s.items() if k != 'vs')), s['vs'])
            if key in seen: continue
            seen.add(key)
            s = dict(s)
            if not self.block(b, s): continue
            bl = f.blocks[b]
            su = bl['su']
            tm = bl.get('tm')
            if tm and tm.get('c') is not None and len(su) == 2:
                t = self.ev(tm['c'], s)
                if tm.get('op') is None and t is not None: su = [su[0] if t else su[1]]
            live = [x for x in su if x is not None and x >= 0]
            if not live or b == f.exit: self.ends.append((b, s))
            for x in live:
                s2 = dict(s)
                if tm and tm.get('c') is not None and len(bl['su']) == 2 and len(live) == 2:
                    self.learn(tm['c'], x == bl['su'][0], s2)
                todo.append((x, s2))

    def learn(self, c, taken, s):
        f = self.f
        while True:
            n = f.nodes[c]
            if n['o'] in ('load', 'cast'): c = n['a'][0]
            elif n['o'] == 'un' and n['op'] == '!': c = n['a'][0]; taken = not taken
            else: break
        if n['o'] == 'var': self.setv(s, n['d'], taken)

    def setv(self, s, d, v):
        m = dict(s['vs']); m.pop(d, None)
        if v is not None: m[d] = v
        s['vs'] = tuple(sorted(m.items()))

    def is_level(self, i, d=0):
        """does i denote the level being loaded (element of the storage, or what the action returned)?"""
        f = self.f
        i = deep(f, i)
        if i is None or i < 0 or d > 6: return False
        if elem(f, i, self.c.fld) or elem(f, i, self.c.raw): return True
        n = f.nodes[i]
        if n['o'] == 'call' and last(n) == 'load' and 'LazyLoad' in (n.get('q') or ''): return True
        if n['o'] == 'var':
            for x in self.vardefs(n['d']):
                if self.is_level(x, d + 1): return True
        return False

    def vardefs(self, d):
        f = self.f
        m = f.__dict__.get('_c19defs')
        if m is None:
            m = f.__dict__['_c19defs'] = {}
            for b, i, e in f.elems():
                if isinstance(e, dict):
                    if e['e'] == 'decl' and e.get('n', -1) is not None and e.get('n', -1) >= 0: m.setdefault(e['d'], []).append(e['n'])
                else:
                    n = f.nodes[e]
                    if n['o'] == 'asn' and n['op'] == '=': 
                        t = f.nodes[strip(f, n['a'][0])]
                        if t['o'] == 'var': m.setdefault(t['d'], []).append(n['a'][1])
                    elif n['o'] == 'call' and 'obj' in n and last(n) == 'operator=' and n['a']:
                        t = f.nodes[strip(f, n['obj'])]
                        if t['o'] == 'var': m.setdefault(t['d'], []).append(n['a'][0])
        return m.get(d, ())

    def block(self, b, s):
        f = self.f
        h = self.loops.get(b)
        for ix, e in enumerate(f.blocks[b]['el']):
            if isinstance(e, dict):
                if e['e'] == 'decl':
                    n = e.get('n', -1)
                    if n is not None and n >= 0:
                        if f.nodes[n]['o'] == 'ctor' and lock_ctor(f, n): s['lk'] = 1
                        else: self.setv(s, e['d'], self.ev(n, s))
                continue
            n = f.nodes[e]
            if n['o'] == 'throw': return False
            if n['o'] == 'call' and n.get('q') in ('__assert_fail', 'std::terminate', 'abort'): return False
            self.event(b, ix, e, n, s)
        return True

    def event(self, b, ix, i, n, s):
        f = self.f; o = n['o']; L = n['l']; loc = lambda: [x for x in self.h.before(b, ix)]
        tgt = val = None
        if o == 'asn' and n['op'] == '=': tgt, val = strip(f, n['a'][0]), n['a'][1]
        elif o == 'call' and 'obj' in n and last(n) in ('operator=', 'reset', 'swap'): tgt, val = strip(f, n['obj']), (n['a'][0] if n['a'] else None)
        if tgt is not None:
            t = f.nodes[tgt]
            if t['o'] == 'var' and o == 'asn':
                self.setv(s, t['d'], self.ev(val, s))
            if elem(f, tgt, self.c.raw): self.publish(b, ix, s, L, val); return
            if elem(f, tgt, self.c.fld):
                self.n['store'] += 1; self.locks.append((set(loc()), L, 'stored'))
                if s['vis']: self.flag('last', 'the stored level is replaced after it has become visible', L)
                s['got'] = 1; return
            if t['o'] == 'mem' and self.is_level(t['a'][0]): self.mutate(b, ix, s, L, 'assigns %s of the level' % t['n']); return
        if o != 'call': return
        q = n.get('q') or ''
        if last(n) == 'load' and 'LazyLoad' in q:
            self.n['load'] += 1; self.locks.append((set(loc()), L, 'loaded'))
            if self.other: self.flag('once', 'the load action runs although another thread loaded the level while this one waited for the lock', L)
            elif s['vis']: self.flag('once', 'the load action runs although the level is loaded', L)
            elif s['ld']: self.flag('once', 'the load action runs twice', L)
            s['ld'] = 1; return
        if n.get('f') in self.publishers: self.publish(b, ix, s, L, None); return
        d = self.f.db.decl.get(n.get('f') or '', {})
        if 'obj' in n and not d.get('const') and not d.get('static') and last(n) not in ('get', 'operator->', 'operator*', 'operator!', 'operator[]', 'metadata') and self.is_level(n['obj']) and not isptr(f.nodes[strip(f, n['obj'])]['t'], n):
            self.mutate(b, ix, s, L, last(n) + '() on the level', last(n))

    def mutate(self, b, ix, s, L, what, name=None):
        self.n['mut'] += 1
        if s['vis'] and not (self.other): self.flag('last', what + ' happens after the level has become visible to other threads', L)
        if name == 'setMapping': s['map'] = 1

    def publish(self, b, ix, s, L, val):
        self.n['pub'] += 1
        if val is not None and self.ev(val, s) is False: return
        self.locks.append((set(self.h.before(b, ix)), L, 'made visible'))
        if not s['got']: self.flag('whole', 'the level becomes visible before its data is stored', L)
        if not s['map']: self.flag('whole', 'the level becomes visible before its mapping is set', L)
        s['vis'] = 1

def isptr(t, n):
    """a method of the smart pointer itself, not of what it points to"""
    return ('_ptr<' in t or t.endswith('Ptr')) and not n.get('arrow') and last(n) in ('reset', 'swap', 'operator=')

def T(cls): return 'MIPField'

def run(ctx):
    db = ctx.db
    C = Cells(db)
    if not (C.raw and C.fld and C.act): raise AnalysisBroken('members of MIPField holding levels, raw levels and load actions not found')
    R1 = 'once'; ctx.rule('once', 'the load action of a level runs under a lock, after a second look at whether the level has been loaded', 1)
    R2 = 'whole'; ctx.rule('whole', 'when a level is made visible (raw pointer set) its data is stored and its mapping set on every path', 1)
    R3 = 'last'; ctx.rule('last', 'nothing changes a level after it has been made visible', 1)
    R4 = 'lock'; ctx.rule('lock', 'load, storing and making visible happen under one common lock', 1)
    R5 = 'reader'; ctx.rule('reader', 'other code touches a stored level, its raw pointer or its action only after seeing it visible, after loading it, or under that lock', 8)
    names = C.raw | C.fld | C.act
    meth = {}
    pubs = set()
    for f in db.fns():
        own = f.decl.get('cls') in C.cls
        touch = False
        for i, n in enumerate(f.nodes):
            if n['o'] == 'mem' and n['n'] in names and 'MIPField' in n['m']: touch = True; break
        if touch: meth[f.k] = f
    # publishers: helpers that set all raw pointers from the storage, with no load
    for k, f in meth.items():
        loops = natloops(f)
        inl = set().union(*loops.values()) if loops else set()
        w = False
        for b, ix, e in f.elems():
            if isinstance(e, dict): continue
            n = f.nodes[e]
            if n['o'] == 'asn' and elem(f, strip(f, n['a'][0]), C.raw) and b in inl: w = True
        if w and not any(n['o'] == 'call' and last(n) == 'load' for n in f.nodes) and f.decl.get('const'): pubs.add(k)
    Walk.publishers = pubs
    ctx.notes.append('publishers: %s' % sorted({db.fn(k).q for k in pubs}))
    # loaders: the const methods running an action, seen from every method that can reach them
    common = None
    loaders = set()
    for k, f in meth.items():
        if any(n['o'] == 'call' and last(n) == 'load' and 'LazyLoad' in (n.get('q') or '') for n in f.nodes): loaders.add(k)
    if not loaders: raise AnalysisBroken('no method runs the load action of a MIP level')
    priv = {k for k, f in meth.items() if f.decl.get('const') and k not in pubs and f.decl.get('cls') in C.cls}
    def pick(g, n, t):
        d = db.decl.get(t, {})
        if t in pubs: return False
        if t in priv: return True
        g2 = db.fn(t)
        return bool(g2) and d.get('cls') in C.cls and d.get('acc', 0) != 0 and not d.get('ctor')
    def level_param(f): return True
    for k in sorted(loaders):
        # judge at the outermost const callers: every method whose closure runs the action
        f = inline(db, k, pick, depth=3)
        ctx.fns.add(k)
        key = '%s in %s' % (f.q.split('::')[-1], T(f.decl['cls']))
        d = f.decl
        # a loader that is only called with the lock already taken is judged in its callers
        A = Walk(f, C, False); B = Walk(f, C, True)
        outer = sorted({g.k for g, _ in db.callers().get(k, ()) if g.k in meth})
        if not A.locks or not all(A.locks[0][0] for _ in (0,)):
            callers_ok = outer and all(c in priv for c in outer)
        bad = dict(A.bad)
        for kk, v in B.bad.items():
            if kk[0] == 'once': bad.setdefault(kk, v)
        ids = None
        for hs, l, w in A.locks:
            s = {x[0] for x in hs}
            ids = s if ids is None else ids & s
        if not ids and outer and d.get('acc', 0) != 0 and k not in [None]:
            # helper called under the caller's lock: judge callers instead
            for c in outer:
                g = inline(db, c, lambda a, n, t: t == k or pick(a, n, t), depth=4)
                A2 = Walk(g, C, False); B2 = Walk(g, C, True)
                judge(ctx, g, C, A2, B2, R1, R2, R3, R4)
                ids2 = common_ids(A2)
                common = ids2 if common is None else common & ids2
            continue
        judge(ctx, f, C, A, B, R1, R2, R3, R4)
        common = (ids or set()) if common is None else common & (ids or set())
    common = common or set()
    # readers: private helpers are judged where they are called
    helpers = {k for k, f in meth.items() if f.decl.get('cls') in C.cls and f.decl.get('acc', 0) != 0 and not f.decl.get('ctor') and k not in pubs and k not in loaders
               and any(g.k in meth or g.decl.get('cls') in C.cls for g, _ in db.callers().get(k, ()))}
    todo = sorted(helpers)
    while todo:
        for g, _ in db.callers().get(todo.pop(), ()):
            if g.k not in meth and g.decl.get('cls') in C.cls: meth[g.k] = g; todo.append(g.k)
    for k, f0 in sorted(meth.items()):
        own = f0.decl.get('cls') in C.cls
        const = f0.decl.get('const')
        if k in loaders or k in pubs or k in helpers: continue
        f = inline(db, k, lambda a, n, t: t in helpers or t in loaders, depth=3) if own else f0
        ctx.fns.add(k)
        U = Reader(f, C, common, db, own and const, k, db)
        key = '%s%s' % (f.q.split('::')[-1], ' in ' + T(f0.decl['cls']) if own else '')
        for l, w in U.bad: ctx.ob(R5, key + ': ' + w, False, f.file + ':%d' % l, w, f)
        if not U.bad and U.n: ctx.ob(R5, key, True, f.loc(), '', f)

def common_ids(A):
    ids = None
    for hs, l, w in A.locks:
        s = {x[0] for x in hs}
        ids = s if ids is None else ids & s
    return ids or set()

def judge(ctx, f, C, A, B, R1, R2, R3, R4):
    key = '%s in %s' % (f.q.split('::')[-1], T(f.decl.get('cls', '')))
    loc = lambda l: '%s:%d' % (f.file, l)
    L0 = f.decl.get('line', 0)
    bad = dict(A.bad)
    for kk, v in B.bad.items():
        if kk[0] == 'once': bad.setdefault(kk, v)
    for R, r in ((R1, 'once'), (R2, 'whole'), (R3, 'last')):
        x = [(w, l) for (q, w), l in bad.items() if q == r]
        for w, l in x: ctx.ob(R, key + ': ' + w, False, loc(l), w, f)
        if not x: ctx.ob(R, key, bool(A.n['load']), loc(L0), 'the load action is not reached', f)
    never = [s for b, s in A.ends if s['ld'] and not s['vis']]
    if never and A.n['load']: ctx.ob(R2, key + ': returns', False, loc(L0), 'returns after loading the level without making it visible', f)
    ids = common_ids(A)
    ctx.ob(R4, key, bool(ids), loc(L0), 'load, store and publication have no lock in common (%s)' % '; '.join('%s line %d: %s' % (w, l, sorted({x[0].split('::')[-1] for x in hs}) or 'none') for hs, l, w in A.locks), f)

class Reader(Walk):
    """uses of level cells by other code"""
    def __init__(self, f, cells, common, db, concurrent, k, db_):
        self.common, self.conc, self.k = common, concurrent, k
        self.found = []; self.cnt = 0
        Walk.__init__(self, f, cells, False)
        self.bad = sorted(set(self.found)); self.n = self.cnt

    def block(self, b, s):
        r = Walk.block(self, b, s)
        return r

    def event(self, b, ix, i, n, s):
        f = self.f
        # uses of elements, or whole members of another object
        use = None
        e = elem(f, i, self.c.raw | self.c.fld | self.c.act) if n['o'] == 'call' else None
        h = {x for x in self.h.before(b, ix)}
        ids = {x[0] for x in h}
        if e:
            nm, base, _ = e
            mine = f.nodes[strip(f, base)]['o'] == 'this' or self.samethis(base)
            self.cnt += 1
            if not (ids & self.common):
                if mine and self.conc and not s['vis']:
                    if nm in self.c.raw:
                        if not self.nulltest(i): self.found.append((n['l'], 'the raw level pointer is used although the level may not be loaded'))
                    elif not self.written(i):
                        self.found.append((n['l'], '%s of a level is read while another thread may be loading it' % ('the load action' if nm in self.c.act else 'the stored field')))
                elif not mine and nm not in self.c.raw:
                    self.found.append((n['l'], '%s of another object\'s level is read while other threads may be loading it' % ('the load action' if nm in self.c.act else 'the stored field')))
        elif n['o'] == 'call' and n.get('a') and last(n) in ('operator=', 'vector', 'assign', 'swap'):
            for a in n['a']:
                m = f.nodes[strip(f, a)]
                if m['o'] == 'mem' and m['n'] in (self.c.fld | self.c.act) and 'MIPField' in m['m'] and not self.samethis(m['a'][0]):
                    self.cnt += 1
                    if not (ids & self.common): self.found.append((n['l'], '%s of another object is copied while other threads may be loading a level' % m['n']))
        Walk.event(self, b, ix, i, n, s)

    def samethis(self, i):
        f = self.f
        i = strip(f, i); n = f.nodes[i]
        if n['o'] == 'this': return True
        if n['o'] == 'var':
            x = refinit(f).get(n['d'])
            if x is None: x = local_init(f).get(n['d'])
            return x is not None and x >= 0 and strip(f, x) != i and self.samethis(x)
        if n['o'] == 'un' and n['op'] in ('*', '&'): return self.samethis(n['a'][0])
        return False

    def par(self):
        f = self.f
        return f.parent()

    def written(self, i):
        p = self.par().get(i)
        if p is None: return False
        n = self.f.nodes[p]
        return n['o'] == 'asn' and n['a'][0] == i or n['o'] == 'call' and n.get('obj') == i and last(n) in ('operator=', 'reset')

    def nulltest(self, i):
        """the pointer is only compared with null, or kept in a local whose later uses are judged by value"""
        f = self.f; p = self.par().get(i)
        while p is not None:
            n = f.nodes[p]
            if n['o'] == 'cast' and n['ck'] in ('PointerToBoolean',): return True
            if n['o'] == 'un' and n['op'] == '!': return True
            if n['o'] == 'bin' and n['op'] in ('==', '!='): return True
            if n['o'] == 'asn': return n['a'][0] == i or f.nodes[strip(f, n['a'][0])]['o'] == 'var'
            if n['o'] not in ('load', 'cast'): return False
            i = p; p = self.par().get(i)
        for b, ix, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and e.get('n') == i: return True
        for b in f.blocks if isinstance(f.blocks, dict) else range(len(f.blocks)):
            tm = f.blocks[b].get('tm')
            if tm and tm.get('c') == i: return True
        return False
