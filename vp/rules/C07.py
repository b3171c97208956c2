"""C07: the block cache evicts idle blocks only and its books balance."""
from ..locks import *
from .C01 import M, B, element_access, elem_index

ASSUME = ['a block listed in the cache list was loaded (established by the balance rule at every addition)',
          'all blocks of one file reference have the same size']
RF = 'Field3D::SparseFile::Reference::'
SF = 'Field3D::SparseFileManager::'
MEMUSE, LIST = SF + 'm_memUse', SF + 'm_blockCacheList'
SZ = {'Imath_3_1::half': 2, 'float': 4, 'double': 8}

def elem_of(f, i, n, member):
    """load node i reads an element of Reference::<member>"""
    if n['o'] != 'load': return False
    j = n['a'][0]; m = f.nodes[j]
    if m['o'] == 'call' and (m.get('q') or '').split('::')[-1] in ('operator[]', 'at'): j = m.get('obj', m['a'][0] if m.get('a') else -1)
    elif m['o'] == 'idx': j = m['a'][0]
    elif m['o'] == 'un' and m['op'] == '*': j = m['a'][0]
    elif m['o'] == 'var' and f.vars[m['d']].get('ref'):
        r = refinit(f).get(m['d'])
        if r is None or r < 0: return False
        m2 = f.nodes[r]
        if m2['o'] == 'call' and 'obj' in m2: j = m2['obj']
        else: return False
    else: return False
    j = strip(f, j)
    return j is not None and j >= 0 and f.nodes[j]['o'] == 'mem' and f.nodes[j]['m'] == RF + member

class Books:
    """Path summaries of cache bookkeeping.  State: (subtracted-erased, unloaded-erased,
    added-loaded, listed-loaded, local amount, returned amount known)."""
    def __init__(self, db, wipes):
        self.db = db; self.memo = {}; self.wipes = wipes
    def has(self, k, seen=frozenset()):
        f = self.db.fn(k)
        if f is None or k in seen: return False
        for e, n in f.calls():
            if event(f, n): return True
            if n.get('f') and (n.get('q') or '').startswith(SF) and self.has(n['f'], seen | {k}): return True
        return any(isinstance(e, int) and mem_change(f, e) for b, i, e in f.elems())
    def amount(self, f, i, st, depth=0):
        """how many block sizes expression i is worth: 0, 1, 'X' (the local), or None"""
        i0 = i
        while i is not None and i >= 0 and f.nodes[i]['o'] in ('load', 'cast') and 'v' not in f.nodes[i]: i = f.nodes[i]['a'][0]
        if i is None or i < 0 or depth > 6: return None
        n = f.nodes[i]
        if 'v' in n: return 0 if n['v'] == 0 else None
        if n['o'] == 'call':
            if (n.get('q') or '') == RF + 'blockSize': return 1
            if 'n%d' % i in st: return st['n%d' % i]
            g = self.db.fn(n.get('f')) if n.get('f') else None
            if g is not None and (n.get('q') or '').startswith('Field3D::') and not self.has(n['f']):
                r = [e['n'] for b, j, e in g.elems() if isinstance(e, dict) and e['e'] == 'ret']
                if len(r) == 1: return self.amount(g, r[0], {}, depth + 1)
            return None
        if n['o'] == 'var':
            v = 'v%d' % n['d']
            if v in st: return st[v]
            li = local_init(f).get(n['d'])
            if li is not None and li >= 0: return self.amount(f, li, st, depth + 1)
        return None

def event(f, n):
    q = n.get('q') or ''
    if q == RF + 'unloadBlock': return 'U'
    if q == RF + 'loadBlock': return 'L'
    if 'obj' in n:
        o = strip(f, n['obj'])
        if o is not None and o >= 0 and f.nodes[o]['o'] == 'mem' and f.nodes[o]['m'] == LIST:
            last = q.split('::')[-1]
            if last in ('erase', 'pop_front', 'pop_back'): return 'E'
            if last in ('insert', 'push_back', 'push_front', 'emplace_back', 'emplace'): return 'P'
            if last in ('clear', 'swap', 'remove_if', 'splice', 'operator=', 'resize', 'assign'): return 'ALL'
    return None

def mem_change(f, e):
    n = f.nodes[e]
    if n['o'] == 'asn':
        j = n['a'][0]
        if f.nodes[j]['o'] == 'mem' and f.nodes[j]['m'] == MEMUSE:
            op = n.get('op', '=')
            if op == '+=': return ('+', n['a'][1])
            if op == '-=': return ('-', n['a'][1])
            # m_memUse = m_memUse +/- x
            r = n['a'][1]
            while f.nodes[r]['o'] == 'cast': r = f.nodes[r]['a'][0]
            m = f.nodes[r]
            if m['o'] == 'bin' and m['op'] in '+-':
                a = strip(f, m['a'][0])
                if f.nodes[a]['o'] == 'mem' and f.nodes[a]['m'] == MEMUSE: return (m['op'], m['a'][1])
            return ('?', n['a'][1])
    if n['o'] == 'un' and n['op'] in ('++', '--') and f.nodes[n['a'][0]]['o'] == 'mem' and f.nodes[n['a'][0]]['m'] == MEMUSE: return ('?', -1)
    return None

CL = lambda x: max(-2, min(2, x))

def summarise(bk, k, stack=()):
    """set of (dE, dU, dP, dM, returned amount, problem) over the paths of k, where
    dE = subtracted - erased, dU = unloaded - erased, dP = listed - loaded, dM = added - loaded"""
    if k in bk.memo: return bk.memo[k]
    if k in stack: return {(0, 0, 0, 0, None, None)}
    db = bk.db; f = db.fn(k)
    out = set()
    # state: (dE,dU,dP,dM, frozenset of (var, amount) ), amount in 0,1,'many','used'
    work = [(f.entry, 0, (0, 0, 0, 0), frozenset(), None)]
    seen = set()
    steps = 0
    def tv(amount): 
        return amount
    while work:
        b, i, st, loc, prob = work.pop()
        if (b, i, st, loc, prob) in seen: continue
        seen.add((b, i, st, loc, prob)); steps += 1
        if steps > 60000: raise AnalysisBroken('cache bookkeeping of %s does not converge' % f.q)
        if b == f.exit:
            out.add(st + (None, prob)); continue
        L = dict(loc); blk = f.blocks[b]; S = list(st); dead = False
        for idx in range(i, len(blk['el'])):
            e = blk['el'][idx]
            def pend(): # settle what locals still hold
                return None
            if isinstance(e, dict):
                if e['e'] == 'decl' and e['n'] >= 0:
                    t = f.vars[e['d']].get('t', '')
                    a = bk.amount(f, e['n'], L)
                    if a is not None and 'int' in t + 'int' and f.vars[e['d']]['t'] in ('int', 'long', 'long long', 'unsigned long', 'unsigned int', 'const int', 'const long', 'size_t'): L['v%d' % e['d']] = a
                elif e['e'] == 'ret':
                    a = bk.amount(f, e['n'], L) if e['n'] >= 0 else None
                    out.add(tuple(map(CL, S)) + (a, prob)); dead = True; break
                continue
            n = f.nodes[e]
            if n['o'] == 'throw': dead = True; break
            mc = mem_change(f, e)
            if mc:
                a = bk.amount(f, mc[1], L) if mc[1] >= 0 else None
                if a is None or mc[0] == '?': prob = (f.loc(e), 'the recorded memory use changes by something other than the size of a block'); continue
                if mc[0] == '+': 
                    if a in (0, 1): S[3] += a
                    else: prob = (f.loc(e), 'the amount added is not one block size')
                else:
                    if a in (0, 1): S[0] += a
                    elif isinstance(a, tuple): S[0] += a[1]     # accumulated relative to erasures
                    else: prob = (f.loc(e), 'the amount subtracted cannot be related to the blocks dropped')
                    v = strip(f, mc[1])
                continue
            if n['o'] == 'asn':
                j = n['a'][0]
                if f.nodes[j]['o'] == 'var':
                    v = 'v%d' % f.nodes[j]['d']; op = n.get('op', '=')
                    a = bk.amount(f, n['a'][1], L)
                    if op == '=':
                        if a is not None: L[v] = a
                        else: L.pop(v, None)
                    elif op == '+=':
                        old = L.get(v)
                        if a in (0, 1) and old is not None:
                            if isinstance(old, tuple): L[v] = ('acc', CL(old[1] + a))
                            else: L[v] = old + a if old + a <= 1 and not acc_var(f, f.nodes[j]['d']) else ('acc', CL(old + a))
                        else: L.pop(v, None)
                continue
            if n['o'] in ('call', 'ctor'):
                ev = event(f, n)
                if ev == 'U': S[1] += 1
                elif ev == 'E':
                    accs = [v for v, a in L.items() if isinstance(a, tuple) or (a in (0, 1) and acc_var(f, int(v[1:])) if v[0] == 'v' else False)]
                    if accs:
                        # count the erasure against the accumulating local
                        for v in accs[:1]:
                            a = L[v]; a = a[1] if isinstance(a, tuple) else a
                            L[v] = ('acc', CL(a - 1))
                        S[1] -= 1
                    else:
                        S[0] -= 1; S[1] -= 1
                elif ev == 'L': S[2] -= 1; S[3] -= 1
                elif ev == 'P': S[2] += 1
                elif ev == 'ALL': prob = (f.loc(e), 'the cache list is changed as a whole')
                elif n.get('f') and (n.get('q') or '').startswith(SF) and bk.has(n['f']) and db.fn(n['f']) is not None:
                    sums = summarise(bk, n['f'], stack + (k,))
                    for s in sums:
                        L2 = {x: y for x, y in L.items() if x[0] == 'v'}
                        if s[4] is not None: L2['n%d' % e] = s[4]
                        work.append((b, idx + 1, tuple(CL(S[q] + s[q]) for q in range(4)), frozenset(L2.items()), prob or s[5]))
                    dead = True; break
        if dead: continue
        S = tuple(map(CL, S))
        tm = blk.get('tm'); su = blk['su']
        keep = lambda: frozenset((x, y) for x, y in L.items() if x[0] == 'v' or True)
        if tm and tm.get('k') == 'CXXTryStmt': continue
        if tm and 'c' in tm and len(su) == 2 and tm['k'] != 'SwitchStmt':
            t = cond_truth(bk, f, tm['c'], L)
            for taken, s in ((True, su[0]), (False, su[1])):
                if s is None or s < 0 or (t is not None and t != taken): continue
                work.append((s, 0, S, keep(), prob))
        else:
            for s in su:
                if s is not None and s >= 0: work.append((s, 0, S, keep(), prob))
    bk.memo[k] = out
    return out

def acc_var(f, d):
    """local changed by += (an accumulator)"""
    c = f.__dict__.get('_acc')
    if c is None:
        c = set()
        for b, i, e in f.elems():
            if isinstance(e, int) and f.nodes[e]['o'] == 'asn' and f.nodes[e].get('op') == '+=' and f.nodes[f.nodes[e]['a'][0]]['o'] == 'var':
                c.add(f.nodes[f.nodes[e]['a'][0]]['d'])
        f._acc = c
    return d in c

def cond_truth(bk, f, c, L):
    while f.nodes[c]['o'] == 'cast': c = f.nodes[c]['a'][0]
    n = f.nodes[c]
    if n['o'] == 'un' and n['op'] == '!':
        t = cond_truth(bk, f, n['a'][0], L); return None if t is None else not t
    if n['o'] == 'bin' and n['op'] in ('>', '!=', '==', '<=', '<', '>='):
        a, z = bk.amount(f, n['a'][0], L), f.nodes[n['a'][1]]
        while z['o'] == 'cast': z = f.nodes[z['a'][0]]
        if z.get('v') != 0 or a not in (0, 1): return None
        return {'>': a > 0, '!=': a != 0, '==': a == 0, '<=': a == 0, '<': False, '>=': True}[n['op']]
    a = bk.amount(f, c, L)
    return None if a not in (0, 1) else bool(a)

def run(ctx):
    db = ctx.db
    ctx.rule('pinned', 'a block that a reader has pinned is never unloaded', 6)
    ctx.rule('section', 'the pin count is looked at and the block unloaded in one critical section of the block lock', 6)
    ctx.rule('reload', 'a block that is loaded already is not loaded again', 1)
    ctx.rule('books', 'whenever the cache lock is let go, blocks listed, blocks loaded and memory recorded agree', 4)
    ctx.rule('where', 'loading, unloading and recording happen in the cache manager under its lock', 6)
    ctx.rule('flag', 'loading and unloading a block set its loaded flag and its storage accordingly', 4)
    ctx.rule('size', 'the size of a block is its voxel count times the size of a voxel of its own type', 1)
    ctx.rule('leave', 'the blocks of a field are freed or replaced only after its entries have left the cache list', 3)
    leave(ctx, db)
    en = entry_locks(db)
    bk = Books(db, None)
    # --- pinned
    for cnt in (1, 6):
        pinned = Assume(db, lambda f, i, n: C(cnt) if elem_of(f, i, n, 'refCounts') else None)
        for f in db.fns():
            us = [(e, n) for e, n in f.calls() if event(f, n) == 'U']
            if not us: continue
            ip = pinned.run(f)
            bad = [e for e, n in us if e in ip.reached]
            if bad: bad = [e for e in bad if not callers_exclude(db, pinned, f)]
            ctx.ob('pinned', '%s: %d readers' % (f.name, cnt), not bad, f.loc(bad[0]) if bad else f.loc(),
                   'the block is unloaded although %d reader(s) have it pinned' % cnt if bad else '', f)
    isrc = lambda f, i, n: C(1) if elem_of(f, i, n, 'refCounts') else None
    rel = Assume(db, isrc)
    for f in db.fns():
        us = [(e, n) for e, n in f.calls() if event(f, n) == 'U']
        if not us: continue
        h = held(f); pos = {}
        for b, i, e in f.elems():
            if isinstance(e, int): pos[e] = (b, i)
        chk = [e for e in pos if isrc(f, e, f.nodes[e]) is not None or
               (f.nodes[e]['o'] == 'call' and f.nodes[e].get('f') and (f.nodes[e].get('q') or '').startswith('Field3D::') and rel.relevant(f.nodes[e]['f']))]
        for e, n in us:
            if not chk and callers_exclude(db, rel, f): continue
            hu = {x for x in h.before(*pos[e]) if x[0] == B}
            ok = bool(chk)
            for c in chk:
                hc = {x for x in h.before(*pos[c]) if x[0] == B}
                if not (hu & hc) and not (B in en[f.k]): ok = False
            # the lock variable held at the unload is acquired once (no release between)
            if ok and released_between(f, h, chk, pos[e], pos): ok = False
            ctx.ob('section', f.name, ok, f.loc(e), '' if ok else 'the pin count is not checked under the block lock that is held while unloading', f)
    # --- reload
    loaded = Assume(db, lambda f, i, n: C(1) if elem_of(f, i, n, 'blockLoaded') and not locks_itself(f) else None)
    for f in db.fns():
        for e, n in f.calls():
            if event(f, n) == 'L':
                ip = loaded.run(f)
                ok = e not in ip.reached or callers_exclude(db, loaded, f)
                ctx.ob('reload', f.name, ok, f.loc(e), '' if ok else 'the block can be loaded a second time (its loaded flag is not looked at under the lock)', f)
    # --- books
    wipe = {}
    for f in db.fns():
        if not f.q.startswith(SF) or not bk.has(f.k): continue
        acq = any(x[2][0] == M for x in held(f).acquisitions())
        inm = M in en[f.k]
        ctx.ob('where', f.name, acq or inm, f.loc(), '' if acq or inm else 'cache bookkeeping outside the cache lock', f)
        if not acq: continue
        w = wipes(f)
        bad = None
        for s in summarise(bk, f.k):
            if s[5]: bad = s[5]; break
            if s[0] != 0: bad = (f.loc(), 'memory is recorded as freed without a block leaving the cache list, or the other way round'); break
            if s[1] != 0 and not w: bad = (f.loc(), 'a block leaves the cache list without being unloaded, or the other way round'); break
            if s[2] != 0: bad = (f.loc(), 'a block is loaded without being listed, or the other way round'); break
            if s[3] != 0: bad = (f.loc(), 'a block is loaded without its size being recorded, or the other way round'); break
        ctx.ob('books', f.name, bad is None, bad[0] if bad else f.loc(), bad[1] if bad else '', f)
    for f in db.fns():
        if f.q.startswith(SF): continue
        for e, n in f.calls():
            ev = event(f, n)
            if ev: ctx.ob('where', '%s: %s' % (f.name, n['q']), False, f.loc(e), 'cache bookkeeping outside the cache manager', f)
    # --- flag
    for name, val, store in (('loadBlock', 1, 'resize'), ('unloadBlock', 0, 'clear')):
        for f in db.need(RF + name, 6):
            sets = []; stores = []
            for b, i, e in f.elems():
                if not isinstance(e, int): continue
                n = f.nodes[e]
                if n['o'] == 'asn' and is_elem(f, n['a'][0], 'blockLoaded'): sets.append(e)
                if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] == store and 'SparseBlock' in n['q']: stores.append(e)
            ip = Const(f)
            def on(bid, i, e, env):
                if e in sets: env['$flag'] = ip.val(f.nodes[e]['a'][1], env)
                if e in stores: env['$store'] = C(1)
                if f.nodes[e]['o'] == 'call' and (f.nodes[e].get('q') or '').endswith('::readBlock'): env['$read'] = C(1)
            ip.on_elem = on; ip.run()
            ex = [en2 for k, v, l, en2 in ip.exits if k != 'throw']
            ok = bool(ex) and all(x.get('$flag') == C(val) and x.get('$store') == C(1) for x in ex)
            ctx.ob('flag', f.name, ok, f.loc(), '' if ok else 'on some path the loaded flag does not become %d or the storage is not handled (%s)' % (val, store), f)
            if val == 1:
                # flag is raised only after the data were read
                bad = [e for b, i, e in f.elems() if isinstance(e, int) and e in sets and not read_before(f, b, i)]
                ctx.ob('flag', f.name + ': after reading', not bad, f.loc(bad[0]) if bad else f.loc(), 'the block is marked loaded before its data are read' if bad else '', f)
    for f in db.need(RF + 'blockSize', 6):
        ta = (f.cls or '').split('<', 1)[-1].rsplit('>', 1)[0]
        ok = False; msg = ''
        sz = voxel_size(ta)
        rets = [e['n'] for b, i, e in f.elems() if isinstance(e, dict) and e['e'] == 'ret']
        for r in rets:
            fac = factors(f, r)
            ok = fac is not None and fac[0] == sz and fac[1] == ['numVoxels']
            msg = 'block size is %s' % (fac,)
        ctx.ob('size', f.name, ok, f.loc(), '' if ok else msg, f)

def voxel_size(t):
    if 'Vec3<' in t: return 3 * voxel_size(t.split('Vec3<', 1)[1].rsplit('>', 1)[0])
    return SZ.get(t.strip(), 0)

def factors(f, i, depth=0):
    n = f.nodes[i]
    if depth > 10: return None
    if 'v' in n: return (n['v'], [])
    if n['o'] in ('load', 'cast'): return factors(f, n['a'][0], depth + 1)
    if n['o'] == 'mem': return (1, [n['n']])
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        return factors(f, li, depth + 1) if li is not None and li >= 0 else None
    if n['o'] == 'bin' and n['op'] == '*':
        a, b = factors(f, n['a'][0], depth + 1), factors(f, n['a'][1], depth + 1)
        if a and b: return (a[0] * b[0], a[1] + b[1])
    return None

def is_elem(f, i, member):
    n = f.nodes[i]
    j = n.get('obj', n['a'][0] if n.get('a') else -1) if n['o'] in ('call', 'idx') else -1
    if n['o'] == 'var' and f.vars[n['d']].get('ref'):
        r = refinit(f).get(n['d']); return r is not None and r >= 0 and is_elem(f, r, member)
    j = strip(f, j)
    return j is not None and j >= 0 and f.nodes[j]['o'] == 'mem' and f.nodes[j]['m'] == RF + member

def locks_itself(f):
    return bool(held(f).acquisitions()) and not any(event(f, n) for e, n in f.calls())

def callers_exclude(db, assume, f):
    """every library call of f is unreachable under the assumption"""
    cs = [(db.fn(a), l) for a, b, ids, l in call_sites(db) if b == f.k]
    if not cs: return False
    for g, l in cs:
        ip = assume.run(g)
        if any(e in ip.reached for e, n in g.calls() if n.get('f') == f.k): return False
    return True

def released_between(f, h, chk, up, pos):
    """some path from a check to the unload passes a point where the block lock is not held"""
    for c in chk:
        w = [(pos[c][0], pos[c][1] + 1, True)]; seen = set()
        while w:
            b, i, okk = w.pop()
            if (b, i, okk) in seen: continue
            seen.add((b, i, okk))
            for j in range(i, len(f.blocks[b]['el'])):
                if not any(x[0] == B for x in h.before(b, j)): okk = False
                if (b, j) == up:
                    if not okk: return True
                    break
                e = f.blocks[b]['el'][j]
                if isinstance(e, int) and (b, j) != pos[c] and e in chk: break
            else:
                for s in f.blocks[b]['su']:
                    if s is not None and s >= 0: w.append((s, 0, okk))
    return False

def read_before(f, bid, idx):
    """every path to (bid, idx) passes a readBlock call"""
    seen = set(); w = [(f.entry, 0)]
    while w:
        b, i = w.pop()
        if (b, i) in seen: continue
        seen.add((b, i)); stop = False
        for j, e in enumerate(f.blocks[b]['el']):
            if b == bid and j == idx: return False
            if isinstance(e, int) and f.nodes[e]['o'] == 'call' and (f.nodes[e].get('q') or '').split('::')[-1] == 'readBlock': stop = True; break
        if stop: continue
        for s in f.blocks[b]['su']:
            if s is not None and s >= 0: w.append((s, 0))
    return True

def wipes(f):
    """the function throws the block tables of the whole reference away"""
    n = 0
    for e, c in f.calls():
        if (c.get('q') or '').split('::')[-1] in ('swap', 'clear') :
            for a in list(c.get('a', ())) + [c.get('obj', -1)]:
                j = strip(f, a)
                if j is not None and j >= 0 and f.nodes[j]['o'] == 'mem' and f.nodes[j]['m'] == RF + 'blockLoaded': n += 1
    return n > 0

def blocks_array(f, i, d=0):
    """the member of a sparse field that points to all of its blocks"""
    j = strip(f, i); n = f.nodes[j]
    if n['o'] == 'var' and d < 4:
        x = local_init(f).get(n['d'])
        return blocks_array(f, x, d + 1) if x is not None and x >= 0 else None
    if n['o'] == 'mem' and n['m'].startswith('Field3D::SparseField::') and re.search(r'Block(<.*>)? \*$', n['t']): return n['n']
    return None

def leave(ctx, db):
    from ..inline import inline
    mine = lambda f: bool(re.match(r'^Field3D::SparseField<(float|double|Imath_3_1::half|Imath_3_1::Vec3<[^<>]*>)>$', f.cls or ''))
    todo = [f for f in db.fns() if mine(f) and any(n['o'] == 'delete' and blocks_array(f, n['a'][0]) for n in f.nodes)]
    seen = set(); judge = []
    while todo:
        f = todo.pop()
        if f.k in seen: continue
        seen.add(f.k)
        # a helper of the class is judged where it is called
        up = [g for g, _ in db.callers().get(f.k, ()) if mine(g) and g.k != f.k] if f.decl.get('acc', 0) != 0 and not f.decl.get('dtor') else []
        if up: todo += up
        elif not f.decl.get('ctor'): judge.append(f)
    for f0 in sorted(judge, key=lambda f: f.k):
        cls = f0.cls
        # judged where it is; a private helper whose callers have all released the field is judged there
        f = inline(db, f0.k, lambda g, n, t: db.decl[t].get('cls') == cls and not db.decl[t].get('ctor'), depth=3)
        bad = []; n_del = [0]
        fid = [x['n'] for x in db.recs[cls]['f'] if x['t'] == 'int' and 'ile' in x['n']]
        env = {'this.m_fileManager': NZ}
        for m in fid: env['this.' + m] = C(5)
        c = Const(f)
        def on_elem(*a):
            b, i, e, env = a
            n = f.nodes[e] if isinstance(e, int) else None
            if n is None: return
            if n['o'] == 'call' and (n.get('q') or '').endswith('::removeFieldFromCache'): env['$left'] = C(1)
            if n['o'] == 'delete' and blocks_array(f, n['a'][0]):
                n_del[0] += 1
                if env.get('$left') != C(1) and env.get('this.m_fileManager') != C(0): bad.append(e)
        c.on_elem = on_elem
        c.run(env0=env)
        ctx.ob('leave', '%s' % f0.q.replace('Field3D::', ''), not bad and n_del[0], f.loc(bad[0]) if bad else f.loc(),
               'the blocks are freed while the block cache still lists them' if bad else 'the blocks are never freed for a dynamically loaded field', f)
