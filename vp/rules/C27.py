"""A block without data reads as its empty value; a first write fills the whole block with it."""
import re
from ..core import *
from ..inline import inline
from ..facts import AnalysisBroken
from .C23 import call_map, closure
ASSUME = ['writing through a field that is read block by block from a file is a contract violation (lvalue and the iterator warn and give a dummy)',
          'an iterator is not kept across a write that allocates its block through another path']

BLK = 'Field3D::Sparse::SparseBlock'

def last(n): return (n.get('q') or '').split('::')[-1]
def isblk(t): return bool(re.search(r'\b(Sparse::)?(SparseBlock<|SparseField<[^>]*>::Block\b|Block\b)', re.sub(r'^const ', '', t or ''))) and 'vector' not in (t or '') and 'Ref' not in (t or '')

def written(f):
    """member names this function may change"""
    r = f.__dict__.get('_wm')
    if r is None:
        r = set()
        for i, n in enumerate(f.nodes):
            if n['o'] == 'asn' or n['o'] == 'un' and n['op'] in ('++', '--'):
                m = f.nodes[strip(f, n['a'][0])]
                if m['o'] == 'mem': r.add(m['n'])
                if m['o'] == 'var': r.add(('v', m['d']))
        f._wm = r
    return r

def stable(f, i, d=0):
    n = f.nodes[i]
    if d > 12: return False
    if n['o'] == 'mem' and n['n'] in written(f): return False
    if n['o'] == 'var' and ('v', n['d']) in written(f): return False
    return all(stable(f, a, d + 1) for a in kids(n))

def btext(f, i, d=0):
    """which block an expression denotes: text by member names, stable locals expanded"""
    i = strip(f, i)
    if i is None or i < 0 or d > 25: return '?'
    n = f.nodes[i]; o = n['o']
    R = lambda j: btext(f, j, d + 1)
    if 'v' in n and o != 'load': return str(n['v'])
    if o == 'this': return ''
    if o == 'var':
        v = f.vars[n['d']]
        ini = refinit(f).get(n['d']) if v.get('ref') else local_init(f).get(n['d'])
        if ini is not None and ini >= 0 and (v.get('ref') or isblk(v['t']) or stable(f, ini)):
            t = R(ini)
            if '?' not in t: return t
        return 'v%d' % n['d']
    if o == 'mem':
        b = R(n['a'][0])
        return (b + '.' if b else '') + n['n']
    if o == 'idx': return '%s[%s]' % (R(n['a'][0]), R(n['a'][1]))
    if o == 'bin' and n['op'] == '+' and isblk(n['t']): return '%s[%s]' % (R(n['a'][0]), R(n['a'][1]))
    if o == 'bin': return '(%s%s%s)' % (R(n['a'][0]), n['op'], R(n['a'][1]))
    if o == 'un' and n['op'] in ('*', '&'): return R(n['a'][0])
    if o == 'un': return n['op'] + R(n['a'][0])
    if o == 'mfn': return R(n['a'][0]) if n.get('a') else ''
    if o == 'call':
        if last(n) in ('operator[]', 'at') and 'obj' in n: return '%s[%s]' % (R(n['obj']), R(n['a'][0]))
        if last(n) in ('operator*', 'operator->', 'get') and 'obj' in n: return R(n['obj'])
        return '%s(%s)' % (last(n), ','.join(([obj(f, n, d)] if 'obj' in n else []) + [R(a) for a in n.get('a', ())]))
    if o == 'ctor' and len(n.get('a', ())) == 1: return R(n['a'][0])
    return '?'

def obj(f, n, d=0):
    j = n.get('obj')
    if j is None or j < 0: return '?'
    return btext(f, j, d + 1)

def cut(t):
    """the same block index of another field"""
    m = re.search(r'\[.*\]$', t)
    return m.group(0) if m else t

class Methods:
    """what each method of the block does with the storage"""
    def __init__(self, db):
        self.give, self.drop, self.read, self.all = {}, {}, {}, set()
        for k, d in db.decl.items():
            if not (d.get('cls') or '').startswith(BLK + '<') or k not in db.raw: continue
            self.all.add(k)
            if d.get('ctor') or d.get('dtor'): continue
            f = db.fn(k); q = d['q'].split('::')[-1]
            sets = dele = rd = False
            for i, n in enumerate(f.nodes):
                if n['o'] == 'asn' and n['op'] == '=' and f.nodes[strip(f, n['a'][0])].get('n') == 'data':
                    if f.nodes[strip(f, n['a'][1])]['o'] == 'null' or f.nodes[strip(f, n['a'][1])].get('v') == 0: dele = True
                    else: sets = True
            # a read: the method hands out the storage
            for _, _, e in f.elems():
                if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0 and any(f.nodes[x].get('n') == 'data' for x in below(f, e['n'])): rd = True
            if rd: self.read[k] = q
            elif sets: self.give[k] = q
            elif dele: self.drop[k] = q
        if not self.give or not self.read: raise AnalysisBroken('no method of SparseBlock provides or reads storage')

def below(f, i, d=0):
    if i is None or i < 0 or d > 25: return
    yield i
    for a in kids(f.nodes[i]): yield from below(f, a, d + 1)

def usenode(f):
    par = f.__dict__.get('_par27')
    if par is None:
        par = {}
        for i, n in enumerate(f.nodes):
            for a in kids(n): par.setdefault(a, []).append(i)
        f._par27 = par
    return par

def tested_only(f, i):
    """a mem 'data' node that is only compared with null, assigned to or deleted"""
    ps = usenode(f).get(i, [])
    if not ps: return True
    for p in ps:
        n = f.nodes[p]
        if n['o'] in ('load', 'cast'):
            if n['o'] == 'cast' and n['ck'] == 'PointerToBoolean': continue
            if tested_only(f, p): continue
            return False
        if n['o'] == 'un' and n['op'] == '!': continue
        if n['o'] == 'bin' and n['op'] in ('==', '!=', '&&', '||'): continue
        if n['o'] == 'asn' and n['a'][0] == i: continue
        if n['o'] == 'delete': continue
        return False
    return True

class Use:
    def __init__(self, f, M):
        self.f, self.M = f, M
        self.reads, self.alloc, self.gives, self.drops, self.empty = {}, {}, {}, {}, {}
        for i, n in enumerate(f.nodes):
            if n['o'] == 'mem' and (n.get('m') or '').startswith(BLK + '::'):
                b = btext(f, n['a'][0])
                if n['n'] == 'isAllocated': self.alloc[i] = b
                elif n['n'] == 'emptyValue': self.empty[i] = b
                elif n['n'] == 'data' and not tested_only(f, i): self.reads[i] = b
            elif n['o'] == 'call' and n.get('f') in M.all:
                b = obj(f, n)
                if n['f'] in M.read: self.reads[i] = b
                elif n['f'] in M.give: self.gives[i] = b
                elif n['f'] in M.drop: self.drops[i] = b

def same(a, b): return a == b

def leaves(ip, i, env, d=0):
    """what an expression may be at this point (both arms of an undecided conditional)"""
    f = ip.f; i = strip(f, i)
    if i is None or i < 0 or d > 15: return {i}
    n = f.nodes[i]
    if n['o'] == 'cond':
        t = truth(ip.val(n['a'][0], env))
        r = set()
        if t is not False: r |= leaves(ip, n['a'][1], env, d + 1)
        if t is not True: r |= leaves(ip, n['a'][2], env, d + 1)
        return r
    if n['o'] == 'un' and n['op'] in ('&', '*'): return leaves(ip, n['a'][0], env, d + 1)
    if n['o'] == 'ctor' and len(n.get('a', ())) == 1: return leaves(ip, n['a'][0], env, d + 1)
    if n['o'] == 'var':
        m = env.get('$d%d' % n['d'])
        if m is not None: return {x for x in m[1]}
    return {i}

class Run:
    """one function under the assumption that one block has, or has not, data"""
    def __init__(self, db, f, U, base, allocated, flags=(), fm=None, ends=True):
        self.hits, self.rets, self.gave, self.ptr = [], [], False, []
        self.tested = False
        def hook(ip, i, n, env):
            j = strip(f, i)
            m = f.nodes[j] if n['o'] == 'load' else n
            if m['o'] == 'mem':
                if j in U.alloc and same(U.alloc[j], base) and '$s' not in env: return C(allocated)
                if m['n'] in flags and n['o'] == 'load' and path(f, j) not in env: return C(0 if allocated else 1)
                if fm is not None and m['n'] in ('m_fileManager', 'm_manager'): return C(fm)
            return None
        ip = self.ip = Const(f, hook)
        ip.split = ('$m', '$t')
        self.spare = None
        def on(bid, x, e, env):
            if isinstance(e, dict):
                if e['e'] == 'decl' and e['n'] >= 0:
                    env['$d%d' % e['d']] = ('t', tuple(sorted(leaves(ip, e['n'], env))))
                if e['e'] == 'ret':
                    self.rets.append((e['n'], leaves(ip, e['n'], env) if e['n'] >= 0 else set(), dict(env), e.get('l')))
                return
            n = f.nodes[e]
            if e in U.reads and same(U.reads[e], base): self.hits.append(e)
            if e in U.gives and same(U.gives[e], base):
                self.gave = True
                return 'stop' if not allocated else None
            if n['o'] == 'mem' and e in U.alloc and same(U.alloc[e], base) or n['o'] == 'load' and strip(f, e) in U.alloc and same(U.alloc[strip(f, e)], base): env['$t'] = C(1)
            if n['o'] == 'asn' and n['op'] == '=':
                l = strip(f, n['a'][0])
                if l in U.alloc and same(U.alloc[l], base): env['$s'] = C(1)
                if f.nodes[l]['o'] == 'var': env['$d%d' % f.nodes[l]['d']] = ('t', tuple(sorted(leaves(ip, n['a'][1], env))))
                if f.nodes[l]['o'] == 'mem' and f.nodes[f.nodes[l]['a'][0]]['o'] in ('this',) and '*' in f.nodes[l]['t']:
                    env['$m' + f.nodes[l]['n']] = ('t', tuple(sorted(leaves(ip, n['a'][1], env))))
        ip.on_elem = ip.on_decl = ip.on_ret = on
        ip.run()

def short(q): return re.sub(r'^Field3D::', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', q)))

def T(f): 
    m = re.search(r'<(.*)>', f.cls or '')
    return m.group(1) if m else ''

def run(ctx):
    db = ctx.db
    M = Methods(db)
    cm = call_map(db); rev = {}
    for a, l in cm.items():
        for b in l: rev.setdefault(b, set()).add(a)
    giving = {k for k in db.raw if closure_gives(cm, k, M.give, {})}
    ctx.rule('fill', 'giving a block storage makes an array of the requested size, sets every element of it to the empty value and marks the block as allocated, on every path', 6)
    ctx.rule('new', 'a block starts without data, not marked as allocated, and with a defined empty value', 6)
    ctx.rule('guard', 'the data of a block is reached only where that same block is known to have data, or was given storage just before', 12)
    ctx.rule('empty', 'a function that returns a voxel returns, for a block without data, that block\'s empty value (read) or storage filled with it (write); for a block with data, the stored voxel', 20)
    ctx.rule('iter', 'the iterators point at the empty value of the block they enter when it has no data, say so in their flag, do not step through it, and allocate it before a voxel is handed out for writing', 60)
    ctx.rule('keep', 'where a block loses its data its mark is cleared and the new empty value set; states copied between fields copy mark and empty value of the same block', 10)
    ctx.rule('query', 'the queries for a block give that block\'s mark and empty value; blocks are skipped as empty only when they hold no data and their empty value is zero', 12)

    for k in sorted(M.give): 
        if any(n['o'] == 'new' for n in db.fn(k).nodes): fill(ctx, db, M, k)
    for k in sorted(M.all):
        d = db.decl[k]
        if not d.get('ctor') and k in db.raw and any(isblk(t) or 'SparseBlock' in t for t in d.get('pt', ())): copier(ctx, db, M, k)
        if d.get('ctor') and not d.get('copy'): newblock(ctx, db, k)

    roots = []
    for f in db.fns(lambda d: True):
        if f.k in M.all or db.decl.get(f.k, {}).get('implicit'): continue
        txt = db.raw[f.k]
        if 'SparseBlock::' in txt or (f.cls or '').startswith('Field3D::SparseField<') and 'terator' in f.cls: roots.append(f.k)
    touching = set(roots)
    flags = {}
    views = {}
    for k in roots:
        fl = db.fn(k).file
        views[k] = inline(db, k, lambda g, n, t: t not in M.all and db.fn(t).file == fl and not db.decl[t].get('ctor') and not n.get('virt'), depth=3)
    # iterator flags
    iters = {}
    for k in roots:
        c = db.fn(k).cls or ''
        if c.startswith('Field3D::SparseField<') and c.split('::')[-1] in ('iterator', 'const_iterator'): iters.setdefault(c, []).append(k)
    setups = {}
    for c, ks in sorted(iters.items()):
        for k in ks:
            f = views[k]; U = Use(f, M)
            if db.decl[k].get('ctor') or not U.alloc or not U.empty or not U.reads: continue
            if not any(f.nodes[p]['o'] == 'asn' for e in U.empty for p in up(f, e)): continue
            flags.setdefault(c, set()).update(setup(ctx, db, M, c, k, f, U, judge=not db.decl[k].get('op')) if is_setup(f, k, db, giving) else ())
            if is_setup(f, k, db, giving): setups.setdefault(c, set()).add(k)
    if len(iters) < 12 or any(not setups.get(c) for c in iters): raise AnalysisBroken('an iterator without a function that enters a block')
    for c, ks in sorted(iters.items()):
        for k in ks: iterop(ctx, db, M, c, k, views[k], flags.get(c, ()), setups[c], giving)

    for k in roots:
        f = views[k]; d = db.decl[k]
        U = Use(f, M)
        c = f.cls or ''
        fl = flags.get(c, ())
        bases = set(U.reads.values())
        # private helpers and functors that are given the block: judged where they are called
        callers = [x for x in rev.get(k, ()) if x != k]
        if d.get('acc') and callers and all(x in touching and db.fn(x).file == f.file for x in callers): continue
        if k in setups.get(c, ()): continue
        for b in sorted(bases):
            m = re.match(r'v(\d+)$', b)
            if m and f.vars[int(m.group(1))].get('p', -1) >= 0 and isblk(f.vars[int(m.group(1))]['t']) and callers and all(x in touching for x in callers): continue
            r = Run(db, f, U, b, 0, fl)
            bad = [h for h in r.hits]
            ctx.ob('guard', '%s %s %s' % (short(f.q), T(f), b), not bad, f.loc(bad[0]) if bad else f.loc(), 'the data of block %s is reached where the block may hold none' % b, f)
        if returns_voxel(f, d, U): arms(ctx, db, f, U, M, fl)
        keep(ctx, db, f, U, M)
        query(ctx, db, f, U, k)
    skip(ctx, db)
    for f in db.fns(lambda d: True):
        if db.decl.get(f.k, {}).get('rt', db.decl.get(f.k, {}).get('rs')) == 'bool' and '/tests/' not in f.file and any(v.get('p', -1) >= 0 and 'SparseBlock' in v['t'] for v in f.vars): allequal(ctx, db, f, M)

def closure_gives(cm, k, give, memo):
    if k in memo: return memo[k]
    memo[k] = False
    memo[k] = any(x in give or closure_gives(cm, x, give, memo) for x in cm.get(k, ()))
    return memo[k]

def up(f, i, d=0):
    for p in usenode(f).get(i, ()):
        yield p
        if d < 8: yield from up(f, p, d + 1)

def is_setup(f, k, db, giving):
    """enters a block: assigns a pointer member, and a bool member of the iterator"""
    if db.decl[k].get('ctor') or db.decl[k].get('op'): return False
    b = p = False
    if any(set(db.targets(n)) & giving for e, n in f.calls() if n.get('f')): return False
    for i, n in enumerate(f.nodes):
        if n['o'] == 'asn' and n['op'] == '=':
            l = f.nodes[strip(f, n['a'][0])]
            if l['o'] == 'mem' and f.nodes[l['a'][0]]['o'] == 'this':
                b |= l['t'] == 'bool'; p |= '*' in l['t']
    return b and p and not (f.q.split('::')[-1].startswith('operator'))

def fill(ctx, db, M, k):
    f = db.fn(k)
    f = inline(db, k, lambda g, n, t: (db.decl[t].get('cls') or '') == f.cls and not db.decl[t].get('ctor'), depth=2)
    news = [i for i, n in enumerate(f.nodes) if n['o'] == 'new']
    size = None
    for i in news:
        for x in kids(f.nodes[i]):
            t = btext(f, x)
            if t.startswith('v') and f.vars[int(t[1:])].get('p', -1) >= 0: size = t
    from .C15 import natloops
    def isdata(j, d=0):
        j = strip(f, j)
        if j is None or j < 0 or d > 10: return False
        n = f.nodes[j]
        if n['o'] == 'mem': return n['n'] == 'data'
        if n['o'] == 'new': return True
        if n['o'] == 'var':
            return any(isdata(e['n'], d + 1) for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'decl' and e['d'] == n['d'] and e['n'] >= 0)
        if n['o'] == 'call' and last(n) == 'get' and 'obj' in n: return isdata(n['obj'], d + 1)
        if n['o'] == 'ctor' and len(n.get('a', ())) == 1: return isdata(n['a'][0], d + 1)
        return False
    def isend(j, d=0):
        j = strip(f, j)
        if j is None or j < 0 or d > 6: return False
        n = f.nodes[j]
        if n['o'] == 'var' and n['d'] in local_init(f): return isend(local_init(f)[n['d']], d + 1)
        return n['o'] == 'bin' and n['op'] == '+' and isdata(n['a'][0]) and btext(f, n['a'][1]) == size
    def isempty(j):
        j = strip(f, j)
        n = f.nodes[j]
        if n['o'] == 'var' and n['d'] in local_init(f): return isempty(local_init(f)[n['d']])
        if n['o'] == 'ctor' and len(n.get('a', ())) == 1: return isempty(n['a'][0])
        return n['o'] == 'mem' and n['n'] == 'emptyValue' and f.nodes[n['a'][0]]['o'] == 'this'
    loops = natloops(f)
    fills = set()
    for e, n in f.calls():
        a = n.get('a', ())
        if last(n) == 'fill_n' and len(a) == 3 and isdata(a[0]) and btext(f, a[1]) == size and isempty(a[2]): fills.add(e)
        if last(n) in ('fill', 'uninitialized_fill') and len(a) == 3 and isdata(a[0]) and isend(a[1]) and isempty(a[2]): fills.add(e)
    # a loop over [0, n) that stores the empty value into each element
    loopfill = set()
    for h, body in (loops.items() if isinstance(loops, dict) else loops):
        st = [e for b in body for e in f.blocks[b]['el'] if isinstance(e, int) and f.nodes[e]['o'] in ('asn', 'call')]
        ok = False
        for e in st:
            n = f.nodes[e]
            if n['o'] == 'asn' and n['op'] == '=': l, r = n['a'][0], n['a'][1]
            elif last(n) == 'operator=' and 'obj' in n and n.get('a'):
                l, r = n['obj'], n['a'][0]
                if f.nodes[l]['o'] == 'mfn': l = f.nodes[l]['a'][0]
            elif last(n) == 'operator=' and len(n.get('a', ())) == 2: l, r = n['a'][0], n['a'][1]
            else: continue
            if not isempty(r): continue
            x = f.nodes[strip(f, l)]
            if x['o'] == 'idx' and isdata(x['a'][0]) or x['o'] == 'un' and x['op'] == '*': ok = True
        if not ok: continue
        # bound
        c = (f.blocks[h].get('tm') or {}).get('c')
        for b in body:
            c = (f.blocks[b].get('tm') or {}).get('c')
            if c is None or not any(s not in body for s in f.blocks[b]['su']): continue
            cn = f.nodes[strip(f, c)]
            if cn['o'] == 'bin' and cn['op'] in ('<', '!=') and (btext(f, cn['a'][1]) == size or isend(cn['a'][1])):
                v = f.nodes[strip(f, cn['a'][0])]
                if v['o'] == 'var':
                    ini = [e['n'] for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'decl' and e['d'] == v['d']]
                    if ini and (f.nodes[strip(f, ini[0])].get('v') == 0 or isdata(ini[0])): loopfill.add(h)
    bad = None
    ip = Const(f)
    ip.split = ('$f', '$n')
    def on(bid, x, e, env):
        if x == 0 and bid in loopfill: env['$f'] = C(1)
        if isinstance(e, int):
            n = f.nodes[e]
            if e in fills: env['$f'] = C(1)
            if n['o'] == 'new': env['$n'] = C(1); env.pop('$f', None)
            if n['o'] == 'asn' and f.nodes[strip(f, n['a'][0])].get('n') == 'emptyValue': env.pop('$f', None)
    ip.on_elem = ip.on_decl = ip.on_ret = on
    ip.run()
    rows = [(ln, env) for kind, v, ln, env in ip.exits if kind != 'throw']
    okf = size is not None and rows and all(env.get('$f') == C(1) for ln, env in rows)
    oka = rows and all(truth(env.get('this*.isAllocated', env.get('this.isAllocated'))) is True or any(kk.endswith('isAllocated') and truth(vv) is True for kk, vv in env.items()) for ln, env in rows)
    okn = rows and all(env.get('$n') == C(1) for ln, env in rows)
    ctx.ob('fill', '%s fill' % short(f.q) + ' ' + T(f), bool(okf and okn), f.loc(), 'a path leaves elements of the new storage without the empty value', f)
    ctx.ob('fill', '%s mark' % short(f.q) + ' ' + T(f), bool(oka), f.loc(), 'a path leaves the block with storage but not marked as allocated', f)

def copier(ctx, db, M, k):
    """copy(other, n): other's data, all of it; or none"""
    from .C15 import natloops
    f = db.fn(k); U = Use(f, M)
    oth = [i for i, v in enumerate(f.vars) if v.get('p', -1) >= 0 and ('SparseBlock' in v['t'] or isblk(v['t']))]
    if not oth or f.q.split('::')[-1].startswith('operator'): return
    b = 'v%d' % oth[0]
    key = short(f.q) + ' ' + T(f)
    def hookv(al):
        def hook(ip, i, n, env):
            j = strip(f, i)
            if j in U.alloc and U.alloc[j] == b and n['o'] in ('load', 'mem'): return C(al)
        return hook
    # no data: storage dropped
    ip = Const(f, hookv(0)); ip.split = ('$x',)
    def on(bid, x, e, env):
        if isinstance(e, int):
            if U.drops.get(e) == '' or e in self_drop: env['$x'] = C(1)
    self_drop = {e for e, n in f.calls() if n.get('f') in M.drop and ('obj' not in n or obj(f, n) in ('', 'this'))}
    for i, n in enumerate(f.nodes):
        if n['o'] == 'asn' and f.nodes[strip(f, n['a'][0])].get('n') == 'data' and f.nodes[strip(f, n['a'][1])]['o'] == 'null': self_drop.add(i)
    ip.on_elem = on; ip.run()
    ok = ip.exits and all(kind == 'throw' or '$x' in env for kind, v, ln, env in ip.exits)
    ctx.ob('keep', key + ' none', bool(ok), f.loc(), 'copying a block without data keeps the old data', f)
    # with data: a whole-range copy on every path
    size = [i for i, v in enumerate(f.vars) if v.get('p', -1) >= 0 and i != oth[0]]
    size = 'v%d' % size[0] if size else None
    def rng(j): return btext(f, j)
    good = set(); heads = set()
    D = lambda t: t in ('data',)
    for e, n in f.calls():
        a = [btext(f, x) for x in n.get('a', ())]
        if last(n) == 'copy' and len(a) == 3 and a[0] == b + '.data' and a[1] in ('(%s.data+%s)' % (b, size),) and D(a[2]): good.add(e)
        if last(n) == 'copy_n' and len(a) == 3 and a[0] == b + '.data' and a[1] == size and D(a[2]): good.add(e)
        if last(n) in ('memcpy', 'memmove') and len(a) == 3 and D(a[0]) and a[1] == b + '.data' and size in a[2]: good.add(e)
    def inits(d): return [e['n'] for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'decl' and e['d'] == d]
    def ptr_of(j, depth=0):
        """the array a pointer or element expression walks over"""
        j = strip(f, j); n = f.nodes[j]
        if depth > 10: return '?'
        if n['o'] == 'un' and n['op'] in ('*', '++', '&'): return ptr_of(n['a'][0], depth + 1)
        if n['o'] == 'idx': return ptr_of(n['a'][0], depth + 1)
        if n['o'] == 'var' and inits(n['d']): return ptr_of(inits(n['d'])[0], depth + 1)
        return btext(f, j)
    loops = natloops(f)
    for h, body in (loops.items() if isinstance(loops, dict) else loops):
        st = False
        for x in body:
            for e in f.blocks[x]['el']:
                if not isinstance(e, int): continue
                for l, r in target(f, e, f.nodes[e]):
                    if ptr_of(l) == 'data' and ptr_of(r) == b + '.data': st = True
        if st and whole(f, h, body, {size}, 'data'): heads.add(h)
    ip = Const(f, hookv(1)); ip.split = ('$x',)
    def on(bid, x, e, env):
        if isinstance(e, int) and e in good or (x == 0 and bid in heads): env['$x'] = C(1)
    ip.on_elem = ip.on_decl = on; ip.run()
    ok = ip.exits and all(kind == 'throw' or '$x' in env for kind, v, ln, env in ip.exits)
    ctx.ob('keep', key + ' data', bool(ok), f.loc(), 'copying a block with data does not copy every voxel of it', f)

def newblock(ctx, db, k):
    f = db.fn(k)
    ini = {}
    for _, _, e in f.elems():
        if isinstance(e, dict) and e['e'] == 'init': ini[e.get('m') or '']= e['n']
        elif isinstance(e, int) and f.nodes[e]['o'] == 'asn':
            l = f.nodes[strip(f, f.nodes[e]['a'][0])]
            if l['o'] == 'mem': ini[l['n']] = f.nodes[e]['a'][1]
    ini = {re.split(r'::|\.', m)[-1]: v for m, v in ini.items()}
    def zero(j): return j is not None and j >= 0 and (f.nodes[strip(f, j)].get('v') == 0 or f.nodes[strip(f, j)]['o'] in ('null', 'zero'))
    ctx.ob('new', short(f.q) + ' ' + T(f), zero(ini.get('isAllocated')) and zero(ini.get('data')) and ini.get('emptyValue') is not None, f.loc(), 'a block can start with a wrong mark, pointer or empty value: %s' % sorted(ini), f)

def setup(ctx, db, M, c, k, f, U, judge):
    """a function of an iterator that enters a block; returns the flags that mean "no data here" """
    main = [b for b in set(U.empty.values()) if b in set(U.reads.values())]
    if not main:
        ctx.ob('iter', '%s block %s' % (short(f.q), T(f)), False, f.loc(), 'the block whose empty value is used is not the block whose data is used', f)
        return ()
    b = main[0]
    r0 = Run(db, f, U, b, 0); r1 = Run(db, f, U, b, 1); r2 = Run(db, f, U, b, 1, fm=0)
    def flagvals(r):
        out = {}
        for kind, v, ln, env in r.ip.exits:
            if kind == 'throw': continue
            for n in boolmembers(f):
                vals = [vv for kk, vv in env.items() if kk in n[1]]
                out.setdefault(n[0], []).append((env, truth(vals[0]) if vals else None))
        return out
    f0, f1 = flagvals(r0), flagvals(r1)
    fl = {m for m in f0 if all(v is True for e, v in f0[m]) and all(v is False for e, v in f1.get(m, []) if '$t' in e)}
    key = short(f.q) + ' ' + T(f)
    ctx.ob('iter', key + ' flag', bool(fl), f.loc(), 'no member says after entering a block whether it holds data', f)
    ptrs = {f.nodes[strip(f, f.nodes[p]['a'][0])]['n'] for e in U.empty for p in up(f, e) if f.nodes[p]['o'] == 'asn' and f.nodes[strip(f, f.nodes[p]['a'][0])]['o'] == 'mem'}
    ok0 = ok1 = bool(ptrs)
    for p in ptrs:
        for kind, v, ln, env in r0.ip.exits:
            if kind == 'throw' or '$t' not in env: continue
            l = env.get('$m' + p)
            ok0 &= l is not None and all(x in U.empty and U.empty[x] == b for x in l[1])
        for kind, v, ln, env in r2.ip.exits:
            if kind == 'throw' or '$t' not in env: continue
            l = env.get('$m' + p)
            ok1 &= l is not None and all(x in U.reads and U.reads[x] == b for x in l[1])
    ctx.ob('iter', key + ' empty', ok0, f.loc(), 'entering a block without data does not point at its empty value', f)
    ctx.ob('iter', key + ' data', ok1, f.loc(), 'entering a block with data does not point at its voxel', f)
    bad = [h for h in r0.hits]
    ctx.ob('iter', key + ' guard', not bad, f.loc(bad[0]) if bad else f.loc(), 'the data of the block is reached where the block may hold none', f)
    return fl

def boolmembers(f):
    r = {}
    for i, n in enumerate(f.nodes):
        if n['o'] == 'mem' and n['t'] == 'bool' and f.nodes[n['a'][0]]['o'] == 'this': r.setdefault(n['n'], set()).add(path(f, i))
    return sorted(r.items())

def iterop(ctx, db, M, c, k, f0, fl, setups, giving):
    """operators of the iterator: f keeps the calls that enter a block as calls"""
    d = db.decl[k]
    if k in setups or d.get('ctor') or d.get('dtor'): return
    fl0 = db.fn(k).file
    f = inline(db, k, lambda g, n, t: t not in M.all and t not in setups and (db.decl[t].get('cls') or '') == c and not db.decl[t].get('ctor'), depth=3)
    U = Use(f, M)
    ptr = {n['n'] for n in f.nodes if n['o'] == 'mem' and '*' in n['t'] and f.nodes[n['a'][0]]['o'] == 'this' and 'Data' not in n['n'] and re.match(r'(const )?' + re.escape(T(f).split('>')[0]) + r' ?\*', n['t'].replace('Field3D::', '')) }
    ptr = {n['n'] for n in f.nodes if n['o'] == 'mem' and '*' in n['t'] and f.nodes[n['a'][0]]['o'] == 'this' and 'Sparse' not in n['t']}
    if not ptr: return
    ret = [e for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0 and any(f.nodes[x].get('n') in ptr for x in below(f, e['n']))]
    key = short(f.q) + ' ' + T(f)
    if ret:
        const = bool(d.get('const'))
        stepped = {}
        def hook(ip, i, n, env):
            j = strip(f, i)
            m = f.nodes[j] if n['o'] == 'load' else n
            if m['o'] == 'mem' and m['n'] in fl and n['o'] == 'load' and '$g' not in env: return C(1)
            if m['o'] == 'mem' and not const and m['n'] in ('m_fileManager', 'm_manager'): return C(0)
        ip = Const(f, hook)
        ip.split = ('$g', '$u')
        wrong = []
        xyz = {}
        def on(bid, x, e, env):
            if isinstance(e, dict):
                if e['e'] == 'ret' and e in ret and not const and ('$g' not in env or '$u' not in env): wrong.append(('a writer gets a voxel of a block that was not allocated first', f.loc(e['n'])))
                return
            n = f.nodes[e]
            if e in U.reads and const: wrong.append(('the data of a block is reached although the flag says it has none', f.loc(e)))
            if n['o'] == 'call' and n.get('f'):
                a = [btext(f, x) for x in n.get('a', ())]
                tg = set(db.targets(n))
                if tg & giving: env['$g'] = C(1); env.pop('$u', None); xyz['a'] = a[:3]
                elif tg & setups and '$g' in env:
                    env['$u'] = C(1)
                    if xyz.get('a') != a[:3]: wrong.append(('the block allocated is not the block entered again', f.loc(e)))
            if n['o'] == 'asn' and f.nodes[strip(f, n['a'][0])].get('n') in ptr and const and n['op'] != '=': wrong.append(('the pointer moves', f.loc(e)))
        ip.on_elem = ip.on_decl = ip.on_ret = on
        ip.run()
        ctx.ob('iter', key + ' dereference', not wrong, wrong[0][1] if wrong else f.loc(), wrong[0][0] if wrong else '', f)
        return
    # stepping
    steps = [e for _, _, e in f.elems() if isinstance(e, int) and (f.nodes[e]['o'] == 'un' and f.nodes[e]['op'] in ('++', '--') or f.nodes[e]['o'] == 'asn' and f.nodes[e]['op'] in ('+=', '-=', '=')) and f.nodes[strip(f, f.nodes[e]['a'][0])].get('n') in ptr]
    if not steps or last({'q': f.q}) in ('operator=',): return
    def hook(ip, i, n, env):
        j = strip(f, i)
        m = f.nodes[j] if n['o'] == 'load' else n
        if m['o'] == 'mem' and m['n'] in fl and n['o'] == 'load': return C(1)
    ip = Const(f, hook)
    hit = []
    def on(bid, x, e, env):
        if isinstance(e, int) and e in steps: hit.append(e)
    ip.on_elem = ip.on_decl = ip.on_ret = on
    ip.run()
    ctx.ob('iter', key + ' step', not hit, f.loc(hit[0]) if hit else f.loc(), 'the pointer to the empty value is moved', f)

def returns_voxel(f, d, U):
    rt = re.sub(r'^const |[&*]| ', '', d.get('rt') or d.get('rs') or '')
    if not U.reads or rt in ('void', 'bool', 'int'): return False
    c = f.cls or ''
    return c.startswith('Field3D::SparseField<') and '::' not in c.split('>')[-1] and not d.get('acc')

def arms(ctx, db, f, U, M, fl):
    d = db.decl[f.k]
    rt = (d.get('rt') or d.get('rs') or '')
    lv = rt.endswith('&') and not rt.startswith('const')
    for b in sorted(set(U.reads.values())):
        key = '%s %s' % (short(f.q), T(f))
        r = Run(db, f, U, b, 0, fl, fm=0 if lv else None)
        bad = []
        for n, lvs, env, ln in r.rets:
            for x in lvs:
                m = f.nodes[x] if x is not None and x >= 0 else {'o': '?'}
                if x in U.empty and U.empty[x] == b and not lv: continue
                if m['o'] == 'null' or m.get('v') == 0 and rt.endswith('*'): continue
                bad.append(x)
        ctx.ob('empty', key + ' without', not bad and (r.gave if lv else bool(r.rets)), f.loc(bad[0]) if bad else f.loc(), 'for a block without data this does not give the block\'s empty value' if not lv else 'for a block without data this does not give storage filled with the empty value', f)
        r = Run(db, f, U, b, 1, fl, fm=0 if lv else None)
        bad = []
        for n, lvs, env, ln in r.rets:
            for x in lvs:
                if x in U.reads and U.reads[x] == b: continue
                bad.append(x)
        ctx.ob('empty', key + ' with', not bad and bool(r.rets), f.loc(bad[0]) if bad else f.loc(), 'for a block with data this does not give the stored voxel', f)
        if lv:
            ctx.ob('empty', key + ' size', all(full(f, f.nodes[g]) for g in U.gives), f.loc(), 'the storage given on the first write does not cover the whole block', f)

def full(f, n):
    """the size asked for is the cube of the block size: 1 << o << o << o, or 1 << 3*o"""
    def sh(j, d=0):
        j = strip(f, j)
        if j is None or j < 0 or d > 12: return None
        m = f.nodes[j]
        if m['o'] == 'var' and m['d'] in local_init(f): return sh(local_init(f)[m['d']], d + 1)
        if m['o'] == 'bin' and m['op'] == '<<':
            a = sh(m['a'][0], d + 1)
            if a is None: return None
            c = co(m['a'][1])
            return None if c is None else a + c
        if m['o'] == 'bin' and m['op'] == '*':
            a, b = sh(m['a'][0], d + 1), sh(m['a'][1], d + 1)
            return None if a is None or b is None else a + b
        if m.get('v') == 1: return 0
        if m['o'] == 'call' and last(m) == 'blockSize': return 1
        return None
    def co(j):
        m = f.nodes[strip(f, j)]
        if m['o'] == 'mem' and m['n'] == 'm_blockOrder' or m['o'] == 'call' and last(m) == 'blockOrder': return 1
        if m['o'] == 'bin' and m['op'] == '*':
            for x, y in (m['a'], m['a'][::-1]):
                v = f.nodes[strip(f, x)].get('v')
                c = co(y)
                if v is not None and c is not None: return v * c
        if m['o'] == 'bin' and m['op'] == '+':
            a, b = co(m['a'][0]), co(m['a'][1])
            return None if a is None or b is None else a + b
        if m['o'] == 'var' and m['d'] in local_init(f): return co(local_init(f)[m['d']])
        return None
    return n.get('a') and sh(n['a'][0]) == 3

def keep(ctx, db, f, U, M):
    if (f.cls or '').startswith(BLK): return
    # mark written
    marks, empt = {}, {}
    for i, n in enumerate(f.nodes):
        for e, w in target(f, i, n):
            if e in U.alloc: marks.setdefault(U.alloc[e], []).append((i, w))
            if e in U.empty: empt.setdefault(U.empty[e], []).append((i, w))
    key = '%s %s' % (short(f.q), T(f))
    for b, ws in sorted(marks.items()):
        for i, w in ws:
            m = f.nodes[strip(f, w)]
            if m.get('v') in (1, True): 
                ctx.ob('keep', '%s mark %s' % (key, b), b in U.gives.values(), f.loc(i), 'a block is marked as allocated without being given storage', f)
                continue
            # another block's mark: that block's empty value too, of the same index
            src = U.alloc.get(strip(f, w))
            if src is not None:
                ok = cut(src) == cut(b) and b in empt and all(U.empty.get(strip(f, x)) is not None and cut(U.empty[strip(f, x)]) == cut(b) and U.empty[strip(f, x)] == src for _, x in empt[b])
                ctx.ob('keep', '%s copies %s' % (key, b), ok, f.loc(i), 'mark and empty value of %s are not both taken from the same block of the source' % b, f)
            elif m.get('v') in (0, False):
                for _, x in empt.get(b, ()):
                    rt = root(f, x)
                    ok = rt is not None and (f.vars[rt].get('p', -1) >= 0 or any(root(f, l) == rt for y, n in enumerate(f.nodes) for l, _ in target(f, y, n)) or any(n['o'] == 'call' and any(f.nodes[strip(f, a)].get('d') == rt and f.nodes[strip(f, a)]['o'] == 'var' for a in n.get('a', ())) for n in f.nodes))
                    ctx.ob('keep', '%s released value %s' % (key, b), ok, f.loc(x), 'the empty value of a released block is not the one found for it', f)
                r = escape_without(f, i, lambda e: e in [x for x, _ in empt.get(b, ())])
                ctx.ob('keep', '%s release %s' % (key, b), not r, f.loc(i), 'a block loses its data but keeps the empty value it had', f)
                r = escape_without(f, i, lambda e: U.drops.get(e) == b)
                ctx.ob('keep', '%s drop %s' % (key, b), not r, f.loc(i), 'the storage of %s is kept although it is no longer marked as allocated' % b, f)
            else:
                # from stored data: same index in the source array
                t = btext(f, w)
                stored(ctx, f, U, b, i, w, key)
                if '[' in t and '[' in b:
                    ok = cut(t) == cut(b) and all(cut(btext(f, x)) == cut(b) for _, x in empt.get(b, ()) if '[' in btext(f, x))
                    ctx.ob('keep', '%s stored %s' % (key, b), ok, f.loc(i), 'mark and empty value of %s come from different positions of the stored lists' % b, f)
    coverage(ctx, f.db, f, U, M, marks, empt, key)
    if not (f.cls or '').startswith('Field3D::SparseField<'): return
    for e, b in sorted(U.drops.items()):
        if b not in marks: ctx.ob('keep', '%s clears %s' % (key, b), False, f.loc(e), 'the storage of a block is dropped while it stays marked as allocated', f)
    # a setter of the empty value sets it on every path
    d = db.decl[f.k]
    if not d.get('acc') and empt and d.get('pn') and not marks_copy(marks, f, U):
        ps = [v for v, x in enumerate(f.vars) if x.get('p', -1) >= 0 and same_t(x['t'], T(f))]
        if len(ps) == 1:
            for b in sorted(empt):
                ip = Const(f); ip.split = ('$e',)
                def on(bid, x, e, env):
                    if isinstance(e, int):
                        for l, w in target(f, e, f.nodes[e]):
                            if l in U.empty and U.empty[l] == b: env['$e'] = C(1) if f.nodes[strip(f, w)].get('d') == ps[0] or root(f, w) == ps[0] else C(0)
                ip.on_elem = ip.on_decl = ip.on_ret = on
                ip.run()
                inloop = re.search(r'(^|\[)v\d+\]?$', b)
                ok = all(env.get('$e') == C(1) for kind, v, ln, env in ip.exits if kind != 'throw') if not inloop else any(root(f, w) == ps[0] for _, w in empt[b])
                ctx.ob('keep', '%s sets %s' % (key, b), ok, f.loc(), 'a path leaves the empty value of %s as it was' % b, f)

def whole(f, h, body, total, start):
    """the loop visits every index from 0 (or pointer from start) up to total, without leaving early"""
    res = False
    for b in body:
        su = f.blocks[b]['su']
        outs = [x for x in su if x is not None and x >= 0 and x not in body]
        if not outs: continue
        tm = f.blocks[b].get('tm') or {}
        c = tm.get('c')
        if any(dead(f, x) for x in outs): continue
        if c is None: return False
        cn = f.nodes[strip(f, c)]
        if cn['o'] == 'call' and cn.get('op'): pass
        if cn['o'] != 'bin' or cn['op'] not in ('<', '!=', '>'): return False
        a0, a1 = cn['a'] if cn['op'] != '>' else cn['a'][::-1]
        v = f.nodes[strip(f, a0)]
        if v['o'] != 'var': return False
        ini = [e['n'] for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'decl' and e['d'] == v['d']]
        for _, _, e in f.elems():
            if isinstance(e, int) and f.nodes[e]['o'] == 'asn' and f.nodes[e]['op'] == '=' and f.nodes[strip(f, f.nodes[e]['a'][0])].get('d') == v['d'] and f.nodes[strip(f, f.nodes[e]['a'][0])]['o'] == 'var': ini.append(f.nodes[e]['a'][1])
        if not ini: return False
        z = f.nodes[strip(f, ini[0])].get('v') == 0
        st = start is not None and btext(f, ini[0]) == start
        e = btext(f, a1)
        if z and e in total: res = True
        elif st and any(e in ('%s[%s]' % (start, t), '(%s+%s)' % (start, t)) for t in total): res = True
        else: return False
    return res

def dead(f, b):
    """a block that only leads to a throw"""
    seen = set(); w = [b]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        if x == f.exit: return False
        if any(isinstance(e, int) and f.nodes[e]['o'] == 'throw' for e in f.blocks[x]['el']): continue
        if any(isinstance(e, dict) and e['e'] == 'ret' for e in f.blocks[x]['el']): return False
        su = [y for y in f.blocks[x]['su'] if y is not None and y >= 0]
        if not su: return False
        w += su
    return True

def coverage(ctx, db, f, U, M, marks, empt, key):
    from .C15 import natloops
    loops = natloops(f)
    loops = list(loops.items()) if isinstance(loops, dict) else list(loops)
    where = {e: bid for bid, i, e in f.elems() if isinstance(e, int)}
    for b, ws in sorted(empt.items()):
        if not (re.search(r'\[v\d+\]$', b) or re.match(r'^v\d+$', b)): continue
        for i, w in ws:
            ins = sorted([(len(body), h, body) for h, body in loops if where.get(i) in body], key=lambda x: x[0])
            if not ins: continue
            if marks.get(b) and all(f.nodes[strip(f, x)].get('v') in (0, False) for _, x in marks[b]): continue    # released one by one
            _, h, body = ins[0]
            total = {'m_numBlocks', 'm_blocks.size()'}
            m = re.match(r'^(.*)m_blocks', b)
            if m and m.group(1): total |= {m.group(1) + 'm_numBlocks'}
            # the size of the list the values come from
            t = f.nodes[strip(f, w)]
            for x in below(f, w):
                v = f.nodes[x]
                if v['o'] == 'var' and f.vars[v['d']]['t'].replace('const ', '').startswith(('std::vector', 'vector')):
                    total.add('size(v%d)' % v['d'])
                    li = local_init(f).get(v['d'])
                    if li is not None and li >= 0: total |= {btext(f, a) for a in f.nodes[strip(f, li)].get('a', ())[:1]}
            for _, e in f.calls():
                if last(e) == 'numBlocks': total.add(btext(f, _))
            ctx.ob('keep', '%s every block %s' % (key, b), whole(f, h, body, total, 'm_blocks'), f.loc(i), 'the loop that sets the empty values does not visit every block', f)

def stored(ctx, f, U, b, i, w, key):
    """a block marked from a file has storage before the next one, unless blocks are loaded on demand"""
    at = {e: (bid, x) for bid, x, e in f.elems() if isinstance(e, int)}
    if i not in at: return
    t = btext(f, w)
    def demand(j, d=0):
        j = strip(f, j)
        if j is None or j < 0 or d > 5: return False
        n = f.nodes[j]
        if n['o'] == 'call': return last(n) == 'doLimitMemUse'
        if n['o'] == 'var': return n['d'] in local_init(f) and demand(local_init(f)[n['d']], d + 1)
        return False
    def hook(ip, x, n, env):
        if n['o'] in ('load', 'call') and btext(f, x) == t: return C(1)
        j = strip(f, x)
        if j in U.alloc and U.alloc[j] == b: return C(1)
        if n['o'] in ('load', 'call') and demand(x): return C(0)
    ip = Const(f, hook)
    def on(bid, x, e, env):
        if isinstance(e, int) and U.gives.get(e) == b: return 'stop'
        if isinstance(e, int) and e == i and '$i' in env: bad.append(e); return 'stop'
        env['$i'] = C(1)
    bad = []
    ip.on_elem = on
    bid, x = at[i]
    ip.run(start=(bid, x + 1), env0={'$i': C(1)})
    bad += [1 for kind, v, ln, env in ip.exits if kind != 'throw']
    ctx.ob('keep', '%s storage %s' % (key, b), not bad, f.loc(i), 'a block marked as allocated from the file can stay without storage', f)

def same_t(t, want):
    t = re.sub(r'^const |[& ]', '', t)
    return t == want.replace(' ', '') or t.split('::')[-1] == want.split('::')[-1]

def root(f, i, d=0):
    i = strip(f, i)
    if i is None or i < 0: return None
    n = f.nodes[i]
    if n['o'] == 'var':
        ini = refinit(f).get(n['d']) if f.vars[n['d']].get('ref') else local_init(f).get(n['d'])
        if f.vars[n['d']].get('p', -1) < 0 and ini is not None and ini >= 0 and d < 8:
            r = root(f, ini, d + 1)
            if r is not None: return r
        return n['d']
    if n['o'] == 'ctor' and len(n.get('a', ())) == 1: return root(f, n['a'][0], d + 1)
    return None

def marks_copy(marks, f, U):
    return any(U.alloc.get(strip(f, w)) is not None for ws in marks.values() for _, w in ws)

def target(f, i, n):
    if n['o'] == 'asn' and n['op'] == '=': yield strip(f, n['a'][0]), n['a'][1]
    elif n['o'] == 'call' and last(n) == 'operator=':
        if 'obj' in n and n.get('a'):
            l = n['obj']
            if f.nodes[l]['o'] == 'mfn' and f.nodes[l].get('a'): l = f.nodes[l]['a'][0]
            yield strip(f, l), n['a'][-1]
        elif len(n.get('a', ())) == 2: yield strip(f, n['a'][0]), n['a'][1]

def escape_without(f, start, good):
    """can the end of the function be reached from start without a good element (before or after in straight line)?"""
    at = {e: (bid, i) for bid, i, e in f.elems() if isinstance(e, int)}
    if start not in at: return False
    bid, i = at[start]
    # before: all in the same block
    if any(isinstance(e, int) and good(e) for e in f.blocks[bid]['el'][:i]): return False
    seen, w = set(), [(bid, i + 1)]
    while w:
        b, j = w.pop()
        if (b, j) in seen: continue
        seen.add((b, j))
        hit = False
        for e in f.blocks[b]['el'][j:]:
            if isinstance(e, int) and good(e): hit = True; break
            if isinstance(e, dict) and e['e'] == 'ret': return True
        if hit: continue
        su = [s for s in f.blocks[b]['su'] if s is not None and s >= 0]
        if not su and not (f.blocks[b].get('tm') or {}).get('k', '').startswith('Throw'): return True
        w += [(s, 0) for s in su]
    return False

def query(ctx, db, f, U, k):
    d = db.decl[k]
    if not (f.cls or '').startswith('Field3D::SparseField<') or d.get('acc') or 'terator' in (f.cls or '').split('>')[-1]: return
    nm = f.q.split('::')[-1]
    if nm not in ('blockIsAllocated', 'getBlockEmptyValue'): return
    ip = Const(f); got = []
    def on(bid, x, e, env):
        if isinstance(e, dict) and e['e'] == 'ret': got.extend(leaves(ip, e['n'], env))
    ip.on_elem = ip.on_decl = ip.on_ret = on; ip.run()
    W = U.alloc if nm == 'blockIsAllocated' else U.empty
    ok = bool(got) and all(x in W and order(db, f, W[x]) for x in got)
    ctx.ob('query', '%s %s' % (short(f.q), T(f)), ok, f.loc(), 'this does not answer for the block it was asked about: %s' % [W.get(x, f.nodes[x]['o']) for x in got], f)

def order(db, f, b):
    """the block number is the one blockId() gives for the three parameters in order"""
    sub = lambda g, t: re.sub(r'v(\d+)', lambda m: 'p%d' % g.vars[int(m.group(1))].get('p', -1), t)
    m = re.match(r'^(?:\w+\.)?m_blocks\[(.*)\]$', b)
    if not m: return False
    m = sub(f, m.group(1))
    for k in db.raw:
        d = db.decl.get(k, {})
        if d.get('cls') != f.cls or d['q'].split('::')[-1] != 'blockId': continue
        g = db.fn(k)
        r = [e['n'] for _, _, e in g.elems() if isinstance(e, dict) and e['e'] == 'ret']
        if len(r) == 1 and sub(g, btext(g, r[0])) == m: return True
    return m == 'blockId(,p0,p1,p2)' or m == 'blockId(p0,p1,p2)'

def skip(ctx, db):
    for f in db.fns(lambda d: True):
        cs = {last(n) for e, n in f.calls()}
        if 'blockIsAllocated' not in cs or (f.cls or '').startswith('Field3D::SparseField<'): continue
        if (db.decl[f.k].get('rt') or db.decl[f.k].get('rs')) != 'bool': continue
        for what, al, ne in (('with data', 1, None), ('with a value', 0, 1)):
            def hook(ip, i, n, env):
                if n['o'] == 'call' and last(n) == 'blockIsAllocated': return C(al)
                if ne is not None and n['o'] in ('bin', 'call') and (n.get('op') in ('!=', '==') or last(n) in ('operator!=', 'operator==')):
                    if any(f.nodes[x].get('q', '').endswith('getBlockEmptyValue') for x in below(f, i)):
                        op = n.get('op') or last(n)[8:]
                        return C(1 if op == '!=' else 0)
            ip = Const(f, hook); bad = []
            seen = []
            ip.split = ('$q',)
            def on(bid, x, e, env):
                if isinstance(e, int) and f.nodes[e]['o'] == 'call' and last(f.nodes[e]) == 'blockIsAllocated': env['$q'] = C(1)
                if isinstance(e, dict) and e['e'] == 'ret' and '$q' in env:
                    seen.append(e)
                    if truth(ip.val(e['n'], env)) is not False: bad.append(e['n'])
            ip.on_elem = ip.on_decl = ip.on_ret = on; ip.run()
            ctx.ob('query', '%s %s %s' % (short(f.q), what, T(f)), bool(seen) and not bad, f.loc(bad[0]) if bad else f.loc(), 'blocks %s are taken for empty ones' % what, f)

def allequal(ctx, db, f, M):
    """a check that compares voxels of a block with one another: a difference means the block is kept"""
    U = Use(f, M)
    at = {e: (bid, x) for bid, x, e in f.elems() if isinstance(e, int)}
    for i, n in enumerate(f.nodes):
        op = n.get('op') if n['o'] == 'bin' else (last(n)[8:] if n['o'] == 'call' and last(n) in ('operator!=', 'operator==') else None)
        if op not in ('!=', '==') or i not in at: continue
        if not any(x in U.reads for x in below(f, i)) and not any(f.nodes[x].get('n') == 'data' for x in below(f, i)): continue
        ip = Const(f); bad = []
        def on(bid, x, e, env):
            if truth(ip.val(e['n'], env)) is not False: bad.append(e['n'])
        ip.on_ret = on
        ip.run(start=at[i], assume={i: C(1 if op == '!=' else 0)})
        ctx.ob('keep', '%s difference %s %s' % (short(f.q), T(f), at[i]), not bad, f.loc(i), 'a block whose voxels differ can be released', f)
