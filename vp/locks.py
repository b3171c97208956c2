"""Locks: identity, intraprocedural held sets, interprocedural entry locksets, order."""
from .core import *
import re

LOCKNAME = re.compile(r'(^|[:_])(\w*_)?(scoped_?lock|lock_?guard|unique_?lock|shared_?lock|\w*[lL]ock)(<.*)?$')

def lock_ctor(f, i):
    """i: ctor node.  The mutex argument node if this constructs a scoped lock."""
    n = f.nodes[i]
    if n['o'] != 'ctor' or not n.get('a'): return None
    a = n['a'][0]
    if is_lock_type(n['t']):
        return a if (len(n['a']) == 1 or not deferred(f, n['a'][1])) else ('deferred', a)
    # any class whose constructor takes a mutex by reference and which has a destructor
    if is_mutex_type(f.nodes[a]['t']) and len(n['a']) == 1 and not is_mutex_type(n['t']):
        return a
    return None

def deferred(f, i):
    t = f.nodes[i]['t']
    return 'defer' in t

def lock_id(f, i, depth=0):
    """(class-level identity, base object path, index key) of mutex expression i."""
    if i is None or i < 0 or depth > 20: return None
    n = f.nodes[i]; o = n['o']
    if o in ('load', 'cast'): return lock_id(f, n['a'][0], depth + 1)
    if o == 'un' and n['op'] in ('*', '&'): return lock_id(f, n['a'][0], depth + 1)
    if o == 'mem': return (n['m'], path(f, n['a'][0]), None)
    if o == 'gvar': return (n['q'], '', None)
    if o == 'idx':
        r = lock_id(f, n['a'][0], depth + 1)
        return r and (r[0] + '[]', r[1], index_key(f, n['a'][1]))
    if o == 'bin' and n['op'] == '+':
        r = lock_id(f, n['a'][0], depth + 1)
        return r and (r[0] + '[]', r[1], index_key(f, n['a'][1]))
    if o == 'var':
        v = f.vars[n['d']]
        if v.get('p', -1) == -1:
            ini = refinit(f).get(n['d'])
            if ini is None: ini = local_init(f).get(n['d'])
            if ini is not None and ini >= 0 and f.nodes[ini]['o'] != 'ctor': return lock_id(f, ini, depth + 1)
            return ('local %s in %s' % (v.get('n'), f.q), '', None)
        return ('param %s of %s' % (v.get('n'), f.q), '', None)
    if o == 'call':
        last = (n.get('q') or '').split('::')[-1]
        if 'obj' in n:
            if last in ('operator[]', 'at'):
                r = lock_id(f, n['obj'], depth + 1)
                return r and (r[0] + '[]', r[1], index_key(f, n['a'][0]))
            if last in ('operator*', 'operator->', 'get', 'operator.'): return lock_id(f, n['obj'], depth + 1)
            g = returned_lock(f.db, n.get('f'))
            if g:
                idx = g[2]
                if isinstance(idx, tuple): idx = index_key(f, n['a'][idx[1]]) if idx[1] < len(n['a']) else '?'
                return (g[0], path(f, n['obj']), idx)
        g = returned_lock(f.db, n.get('f'))
        if g: return (g[0], '', g[2] if not isinstance(g[2], tuple) else '?')
    return None

def returned_lock(db, k):
    """lock id returned by reference from accessor k; an index that is a parameter
    is given as ('param', j)."""
    c = db.__dict__.setdefault('_retlock', {})
    if k in c: return c[k]
    c[k] = None
    f = db.fn(k) if k else None
    if f is None: return None
    rt = f.decl.get('rt', '')
    if not is_mutex_type(rt): return None
    ids = set()
    for _, _, e in f.elems():
        if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0:
            r = lock_id(f, e['n'])
            if r is None: return None
            idx = r[2]
            for j, v in f.params.items():
                if idx == 'v%d' % v: idx = ('param', j)
            ids.add((r[0], r[1], idx))
    if len(ids) == 1: c[k] = ids.pop()
    return c[k]

def index_key(f, i, depth=0):
    """Canonical form of an index, without a striping modulus."""
    if i is None or i < 0 or depth > 10: return '?'
    n = f.nodes[i]
    if 'v' in n: return str(n['v'])
    if n['o'] in ('load', 'cast'): 
        return index_key(f, n['a'][0], depth + 1)
    if n['o'] == 'bin' and n['op'] in ('%', '&'): return index_key(f, n['a'][0], depth + 1)
    if n['o'] == 'var':
        ini = local_init(f).get(n['d'])
        if ini is not None and ini >= 0:
            k = index_key(f, ini, depth + 1)
            if k != '?': return k
    p = path(f, i)
    return p if p else '?'

def raii_class(f):
    """f is a member of a class that holds a reference to a mutex it locks in its constructor."""
    if not (f.decl.get('ctor') or f.q.split('::')[-1].startswith('~')): return False
    r = f.db.recs.get(f.cls or '')
    return bool(r) and any(is_mutex_type(x.get('t')) and x.get('t', '').rstrip().endswith('&') for x in r['f']) and len(r['f']) <= 2

class Held:
    """held[(block, index)] -> frozenset of (id, base, idx) before that element."""
    def __init__(self, f, may=False):
        self.f = f; self.may = may; self.at = {}; self.acq = []   # (elem, id tuple, held before)
        self.run()

    def run(self):
        f = self.f
        # lock variables
        self.info = {}; self.ctor_try = {}
        any_lock = False
        if raii_class(f):
            # the lock class itself: its users are analysed instead
            self.any = False; self.default = frozenset(); return
        for b, i, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and e['n'] >= 0:
                n = f.nodes[e['n']]
                while n['o'] == 'cast': n = f.nodes[n['a'][0]]
                j = e['n']
                while f.nodes[j]['o'] == 'cast': j = f.nodes[j]['a'][0]
                lc = lock_ctor(f, j)
                if lc is not None:
                    dfr = isinstance(lc, tuple)
                    lid = lock_id(f, lc[1] if dfr else lc) or ('unknown lock in ' + f.q, '', None)
                    if 'recursive' in f.nodes[lc[1] if dfr else lc]['t']: f.db.__dict__.setdefault('_recursive', set()).add(lid[0])
                    self.info[e['d']] = (lid, dfr); self.ctor_try[e['d']] = f.nodes[j].get('y', -1)
                    any_lock = True
            elif isinstance(e, int):
                n = f.nodes[e]
                if n['o'] == 'call' and 'obj' in n and (n.get('q') or '').split('::')[-1] in ('lock', 'unlock') and is_mutex_type(f.nodes[n['obj']]['t']):
                    any_lock = True
        self.any = any_lock
        if not any_lock:
            e0 = frozenset()
            self.default = e0
            return
        self.default = None
        inst = {f.entry: frozenset()}
        work = [f.entry]
        self.at = {}
        def push(b, s):
            if b is None or b < 0: return
            if b not in inst: inst[b] = s; work.append(b)
            else:
                m = (inst[b] | s) if self.may else (inst[b] & s)
                if m != inst[b]: inst[b] = m; work.append(b)
        n_it = 0
        while work:
            b = work.pop(); n_it += 1
            if n_it > 50000: raise AnalysisBroken('lock analysis does not converge in ' + f.name)
            s = inst[b]
            bl = f.blocks[b]
            for i, e in enumerate(bl['el']):
                self.at[(b, i)] = s
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n['o'] in ('call', 'ctor', 'new', 'throw') and n.get('y', -1) >= 0:
                        hs, _ = handlers_for(f, n['y'], n.get('tt') if n['o'] == 'throw' else None)
                        for h in hs:
                            t = self.handler_try(h)
                            push(h, frozenset(x for x in s if not self.inside(x[0], t)))
                    if n['o'] == 'call' and 'obj' in n:
                        last = (n.get('q') or '').split('::')[-1]
                        if last in ('lock', 'unlock', 'try_lock', 'release', 'swap'):
                            on = strip(f, n['obj'])
                            x = f.nodes[on]
                            if x['o'] == 'var' and x['d'] in self.info:
                                lid = self.info[x['d']][0]
                                if last == 'lock': s = s | {(x['d'], lid)}
                                else: s = frozenset(y for y in s if y[0] != x['d'])
                            elif is_mutex_type(f.nodes[n['obj']]['t']):
                                lid = lock_id(f, n['obj'])
                                if lid:
                                    if last == 'lock': s = s | {('direct', lid)}
                                    elif last == 'unlock': s = frozenset(y for y in s if y[1] != lid)
                else:
                    if e['e'] == 'decl' and e['d'] in self.info:
                        lid, dfr = self.info[e['d']]
                        if not dfr: s = s | {(e['d'], lid)}
                    elif e['e'] == 'dtor' and e.get('d') in self.info:
                        s = frozenset(y for y in s if y[0] != e['d'])
            for x in bl['su']: push(x, s)
        
    def handler_try(self, h):
        for (t, j), b in self.f.catch_blocks.items():
            if b == h: return t
        return -1

    def inside(self, d, t):
        """lock variable d was constructed inside try t"""
        y = self.ctor_try.get(d, -1)
        while y is not None and y >= 0:
            if y == t: return True
            y = self.f.tries[y]['parent']
        return False

    def before(self, b, i):
        if self.default is not None: return self.default
        return frozenset(x[1] for x in self.at.get((b, i), ()))

    def acquisitions(self):
        """(block, index, lock id, line) for each acquisition"""
        f = self.f
        if not self.any: return
        for b, i, e in f.elems():
            if isinstance(e, dict):
                if e['e'] == 'decl' and e['d'] in self.info and not self.info[e['d']][1]:
                    yield b, i, self.info[e['d']][0], e.get('l')
            else:
                n = f.nodes[e]
                if n['o'] == 'call' and 'obj' in n and (n.get('q') or '').split('::')[-1] == 'lock':
                    x = f.nodes[strip(f, n['obj'])]
                    if x['o'] == 'var' and x['d'] in self.info: yield b, i, self.info[x['d']][0], n.get('l')
                    elif is_mutex_type(f.nodes[n['obj']]['t']):
                        l = lock_id(f, n['obj'])
                        if l: yield b, i, l, n.get('l')

def held(f, may=False):
    a = '_held%d' % may
    h = f.__dict__.get(a)
    if h is None:
        h = Held(f, may); setattr(f, a, h)
    return h

def call_sites(db, may=False):
    """[(caller fn, callee key, frozenset of class-level lock ids held)]"""
    at = '_csites%d' % may
    c = db.__dict__.get(at)
    if c is None:
        c = []
        for f in db.fns():
            h = held(f, may)
            for b, i, e in f.elems():
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n['o'] in ('call', 'ctor', 'new', 'delete') and n.get('f'):
                        ids = frozenset(x[0] for x in h.before(b, i))
                        for t in db.targets(n):
                            c.append((f.k, t, ids, n.get('l')))
                elif e.get('f'):
                    ids = frozenset(x[0] for x in h.before(b, i))
                    c.append((f.k, e['f'], ids, e.get('l')))
        setattr(db, at, c)
    return c

def entry_locks(db, may=False, roots=()):
    """function key -> lock ids held on entry from every (may: some) call site in the library."""
    sites = call_sites(db, may)
    by = {}
    for a, b, ids, l in sites:
        if b in db.raw: by.setdefault(b, []).append((a, ids))
    TOP = None
    en = {}
    for k in db.raw:
        en[k] = frozenset() if (may or k not in by or k in roots) else TOP
    out = {}
    for a, b, ids, l in sites:
        if b in db.raw: out.setdefault(a, set()).add(b)
    work = set(db.raw)
    while work:
        k = work.pop()
        if k in by and k not in roots:
            if may:
                s = frozenset()
                for a, ids in by[k]: s |= en[a] | ids
            else:
                s = TOP
                for a, ids in by[k]:
                    if en[a] is TOP: continue
                    x = en[a] | ids
                    s = x if s is TOP else s & x
            if s != en[k]:
                en[k] = s
                work |= out.get(k, set())
    if not may:
        # functions only reachable from cycles without an external caller
        for k in en:
            if en[k] is TOP: en[k] = frozenset()
    return en

def contexts(db):
    """function key -> {set of lock ids held on entry: example caller chain}, for
    every calling context inside the library."""
    c = db.__dict__.get('_ctxs')
    if c is not None: return c
    sites = {}
    for a, b, ids, l in call_sites(db):
        if b in db.raw: sites.setdefault(a, {}).setdefault((b, ids), l)
    c = {k: {frozenset(): None} for k in db.raw}
    work = [(k, frozenset()) for k in db.raw]
    # contexts without locks only for functions that can be called from outside;
    # an internal function is analysed in those its callers give it
    called = {b for m in sites.values() for b, _ in m}
    work = []
    for k in db.raw:
        if k in called: c[k] = {}
        else: work.append((k, frozenset()))
    # public entry points are also called directly by applications
    for k in db.raw:
        d = db.decl[k]
        if k in called and d.get('acc', 0) == 0 and (d.get('file') or '').startswith('export/') and not d['q'].startswith('Field3D::SparseFile::'):
            c[k][frozenset()] = None; work.append((k, frozenset()))
    while work:
        k, ctx = work.pop()
        for (b, ids), l in sites.get(k, {}).items():
            n = ctx | ids
            if n not in c[b]:
                if len(c[b]) > 200: raise AnalysisBroken('too many lock contexts for ' + b)
                c[b][n] = (k, l, ctx); work.append((b, n))
    db._ctxs = c
    return c

def ctx_chain(db, k, ctx, n=6):
    out = []
    while k is not None and len(out) < n:
        f = db.fn(k); out.append(f.q)
        x = contexts(db)[k].get(ctx)
        if x is None: break
        k, _, ctx = x
    return ' <- '.join(out)

def order_edges(db):
    """{(held, acquired): (fn, line, chain)} and [(self-acquired lock, fn, line, chain)]"""
    E, S = {}, {}
    cx = contexts(db)
    for f in db.fns():
        h = held(f)
        if not h.any: continue
        for b, i, lid, l in h.acquisitions():
            hb = frozenset(x[0] for x in h.before(b, i))
            for c in cx[f.k]:
                al = c | hb
                if lid[0] in al:
                    if lid[0] not in f.db.__dict__.get('_recursive', ()): S.setdefault((lid[0], f.q), (f, l, c, lid))
                else:
                    for x in al: E.setdefault((x, lid[0]), (f, l, c))
    return E, S
