"""C06: blocks of dynamically loaded fields are pinned while read."""
from ..locks import *

ASSUME = ['writing through a non-const iterator or accessor to a dynamically loaded field is a documented misuse that the library refuses',
          'SparseFieldIO fills the blocks of a field it has just created, before anybody else can read it',
          'loading a block may throw; taking and dropping a pin may not']
NS = 'Field3D::'
INC = {NS + 'SparseFileManager::incBlockRef', NS + 'SparseField::incBlockRef', NS + 'SparseFile::Reference::incBlockRef'}
DEC = {x.replace('inc', 'dec') for x in INC}
ACT = {NS + 'SparseFileManager::activateBlock', NS + 'SparseField::activateBlock'}
VALUE = NS + 'Sparse::SparseBlock::value'
DATA = NS + 'Sparse::SparseBlock::data'
ALLOC = NS + 'Sparse::SparseBlock::isAllocated'
FM = NS + 'SparseField::m_fileManager'
IT = NS + 'SparseField::const_iterator'
OWN = (NS + 'Sparse::SparseBlock::', NS + 'SparseFile::', NS + 'SparseFileManager::')

def key(f, i, depth=0):
    """canonical block id"""
    i = strip(f, i)
    if i is None or i < 0 or depth > 6: return '?'
    n = f.nodes[i]
    if 'v' in n: return str(n['v'])
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        if li is not None and li >= 0:
            k = key(f, li, depth + 1)
            if k != '?': return k
        return 'v%d' % n['d']
    if n['o'] == 'call' and (n.get('q') or '').endswith('::blockId'): return 'id(%s)' % ','.join(key(f, a, depth + 1) for a in n['a'])
    if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('operator[]', 'at'): return 'elem'
    if n['o'] == 'idx': return 'elem'
    return path(f, i) or '?'

def block_key(f, i, depth=0):
    """id of the block a SparseBlock expression denotes"""
    if i is None or i < 0 or depth > 8: return '?'
    i = strip(f, i)
    if i is None or i < 0: return '?'
    n = f.nodes[i]
    if n['o'] == 'idx': return key(f, n['a'][1])
    if n['o'] == 'var':
        r = refinit(f).get(n['d'])
        if r is None: r = local_init(f).get(n['d'])
        if r is not None and r >= 0: return block_key(f, r, depth + 1)
        return '?'
    if n['o'] == 'un' and n['op'] in '*&': return block_key(f, n['a'][0], depth + 1)
    if n['o'] == 'bin' and n['op'] == '+': return key(f, n['a'][1])
    if n['o'] == 'call' and n.get('op') in ('[]',) and n.get('a'): return key(f, n['a'][0])
    return '?'

def tainted(f):
    """locals that point into block data: var -> block key"""
    c = f.__dict__.get('_blkptr')
    if c is not None: return c
    c = {}
    def src(i, depth=0):
        if i is None or i < 0 or depth > 10: return None
        n = f.nodes[i]
        if n['o'] in ('load', 'cast'): return src(n['a'][0], depth + 1)
        if n['o'] == 'mem' and n['m'] == DATA: return block_key(f, n['a'][0])
        if n['o'] == 'call' and n.get('q') == NS + 'SparseField::blockData': return 'id(%s)' % ','.join(key(f, a) for a in n['a'])
        if n['o'] == 'un' and n['op'] == '&': return src(n['a'][0], depth + 1)
        if n['o'] == 'call' and n.get('q') == VALUE: return block_key(f, n['obj'])
        if n['o'] == 'bin' and n['op'] in '+-':
            return src(n['a'][0], depth + 1) or src(n['a'][1], depth + 1)
        if n['o'] == 'var': return c.get(n['d'])
        if n['o'] == 'cond': return src(n['a'][1], depth + 1) or src(n['a'][2], depth + 1)
        return None
    f._blksrc = src
    for _ in range(4):
        for b, i, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and e['n'] >= 0 and ('*' in f.vars[e['d']].get('t', '') or f.vars[e['d']].get('ref')):
                s = src(e['n'])
                if s: c[e['d']] = s
            elif isinstance(e, int) and f.nodes[e]['o'] == 'asn' and f.nodes[f.nodes[e]['a'][0]]['o'] == 'var' and '*' in f.nodes[e]['t']:
                s = src(f.nodes[e]['a'][1])
                if s: c[f.nodes[f.nodes[e]['a'][0]]['d']] = s
    f._blkptr = c
    return c

def touches(f):
    """element -> block key, for elements that read or pass on block data"""
    t = tainted(f); src = f._blksrc; out = {}
    par = f.parent()
    for b, i, e in f.elems():
        if not isinstance(e, int): continue
        n = f.nodes[e]
        if n['o'] == 'call':
            if n.get('q') == VALUE:
                p = par.get(e)
                if p is not None and f.nodes[p]['o'] == 'un' and f.nodes[p]['op'] == '&': continue
                bound = [x for x in refinit(f).items() if x[1] == e]
                if bound: continue
                out[e] = block_key(f, n['obj'])
            elif n.get('q') == NS + 'Sparse::SparseBlock::copy':
                out[e] = block_key(f, n['a'][0])
            elif (n.get('q') or '').startswith((NS, 'boost::', 'std::')) and not (n.get('q') or '').startswith(('std::mem', 'std::copy', 'std::fill')):
                if n.get('q', '').startswith(NS):
                    for a in n.get('a', ()):
                        if '*' in f.nodes[a]['t'] and src(a): out[e] = src(a)
            else:
                for a in n.get('a', ()):
                    s = src(a)
                    if s: out[e] = s
        elif n['o'] == 'un' and n['op'] == '*':
            s = src(n['a'][0])
            if s: out[e] = s
        elif n['o'] == 'idx':
            s = src(n['a'][0])
            if s: out[e] = s
        elif n['o'] == 'load' and f.nodes[n['a'][0]]['o'] == 'var' and f.vars[f.nodes[n['a'][0]]['d']].get('ref') and f.nodes[n['a'][0]]['d'] in t:
            out[e] = t[f.nodes[n['a'][0]]['d']]
    return out

def guards(db):
    """RAII classes: destructor drops pins, a constructor or method takes and activates them"""
    c = db.__dict__.get('_pinguards')
    if c is None:
        c = {}
        for f in db.fns():
            if f.q.split('::')[-1].startswith('~') and f.cls and not f.q.startswith((IT,) + OWN):
                if any(n.get('q') in DEC for e, n in f.calls()): c[f.cls] = {'dtor': f, 'take': []}
        for f in db.fns():
            if f.cls in c and not f.q.split('::')[-1].startswith('~'):
                if any(n.get('q') in ACT for e, n in f.calls()): c[f.cls]['take'].append(f)
        db._pinguards = c
    return c

def typestate(ctx, db, f, assume, calls_touch):
    """report pins not taken before a touch, not dropped, dropped twice"""
    ip = assume.run(f)
    tt = touches(f)
    G = guards(db)
    probs = []
    init = (0, False, None)            # pins, active, key
    work = [(f.entry, 0, init, 0)]; seen = set()
    while work:
        b, i, st, bulk = work.pop()
        if (b, i, st, bulk) in seen: continue
        seen.add((b, i, st, bulk))
        if len(seen) > 40000: raise AnalysisBroken('pin analysis of %s does not converge' % f.q)
        if b == f.exit:
            if st[0] > 0: probs.append((f.loc(), 'the pin on the block is not dropped on every way out'))
            continue
        dead = False; pins, act, k = st
        for j in range(i, len(f.blocks[b]['el'])):
            e = f.blocks[b]['el'][j]
            if isinstance(e, dict):
                if e['e'] == 'ret':
                    if pins > 0 and not later_dec(f, e): probs.append((f.loc(e), 'the pin on the block is not dropped before returning'))
                    dead = True
                    # destructors after the return are RAII only
                    break
                if e['e'] == 'dtor' and 'd' in e and cls_of(f, e['d']) in G: bulk = 0
                continue
            n = f.nodes[e]; q = n.get('q') or ''
            if n['o'] in ('call', 'ctor'):
                if q in INC:
                    pins = min(pins + 1, 3); k = key(f, n['a'][-1]); act = False
                elif q in DEC:
                    k2 = key(f, n['a'][-1])
                    if pins == 0: probs.append((f.loc(e), 'a pin is dropped that was not taken'))
                    elif k2 != '?' and k not in ('?', None) and k2 != k: probs.append((f.loc(e), 'the pin dropped is that of another block'))
                    pins = max(0, pins - 1)
                    if pins == 0: act = False
                elif q in ACT:
                    k2 = key(f, n['a'][-1])
                    if pins == 0 and not f.cls_is_wrapper: pass
                    if pins > 0 and (k2 == k or '?' in (k, k2)): act = True
                    # may throw
                    if pins > 0:
                        hs, esc = handlers_for(f, n.get('y', -1), None)
                        for h in hs: work.append((h, 0, (pins, False, k), bulk))
                        if esc: probs.append((f.loc(e), 'when the block cannot be loaded its pin is never dropped'))
                elif n['o'] == 'call' and n.get('f') and any(n['f'] == t.k for g in G.values() for t in g['take']): bulk = 1
                elif n['o'] == 'ctor' and n.get('f') and any(n['f'] == t.k for g in G.values() for t in g['take']): bulk = 1
                elif e in calls_touch and not bulk and not (pins and act):
                    probs.append((f.loc(e), 'starts reading block data that are not pinned'))
            if n['o'] == 'throw':
                hs, esc = handlers_for(f, n.get('y', -1), n.get('tt')) if n.get('tt') else ([], True)
                for h in hs: work.append((h, 0, (pins, act, k), bulk))
                if esc and pins > 0: probs.append((f.loc(e), 'the pin on the block is not dropped when an error is raised'))
                dead = True; break
            if e in tt:
                if bulk: continue
                kt = tt[e]
                if pins == 0: probs.append((f.loc(e), 'block data are read without a pin on the block'))
                elif not act: probs.append((f.loc(e), 'block data are read before the pinned block was loaded'))
                elif kt not in ('?', k) and k != '?': probs.append((f.loc(e), 'the block read is not the one that was pinned'))
        if dead: continue
        for s in f.blocks[b]['su']:
            if s is None or s < 0: continue
            if (b, s) in ip.edges or s == f.exit: work.append((s, 0, (pins, act, k), bulk))
    return probs, tt, ip

def later_dec(f, e): return False

def cls_of(f, d):
    t = f.vars[d].get('t', '').replace('const ', '')
    return t

class Scen(Const):
    """Constant propagation of one scenario through an object's own methods; records pin events."""
    def __init__(self, f, base, depth=0):
        Const.__init__(self, f, hook=self.h); self.base = base; self.dep = depth; self.stash = {}
    def h(self, ip, i, n, env):
        v = self.base(self, i, n, env)
        if v is not None: return v
        return self.stash.get(i, (None,))[0]
    def block(self, bid, i0, env, push, assume):
        return Const.block(self, bid, i0, env, push, assume)
    def ev(self, i, env):
        n = self.f.nodes[i]
        if n['o'] in ('call', 'ctor') and i not in self.__dict__.get('_busy', ()):
            self._event(i, n, env)
        return Const.ev(self, i, env)
    def _event(self, i, n, env):
        q = n.get('q') or ''
        self.stash.pop(i, None)
        if n['o'] == 'call' and n.get('f') and q.startswith(IT + '::') and self.dep < 4 and 'obj' in n:
            g = self.db.fn(n['f'])
            p = path(self.f, n['obj'])
            if g is None or p is None: return
            p = p.rstrip('*') if p.startswith('this') else p
            e0 = {'this' + k[len(p):]: v for k, v in env.items() if k == p or k.startswith(p + '.')}
            e0.update({k: v for k, v in env.items() if k.startswith('$')})
            for j, a in enumerate(n.get('a', ())):
                if j in g.params:
                    v = self.val(a, env)
                    if v is not None and not g.vars[g.params[j]].get('ref'): e0['v%d' % g.params[j]] = v
                    pa = path(self.f, a)
                    if pa and g.vars[g.params[j]].get('ref'):
                        for k2, v2 in env.items():
                            if k2.startswith(pa + '.'): e0['v%d' % g.params[j] + k2[len(pa):]] = v2
            sub = Scen(g, self.base, self.dep + 1); sub.run(env0=e0)
            ex = [x for x in sub.exits if x[0] != 'throw']
            if not ex: return
            m = dict(ex[0][3])
            for x in ex[1:]: m = {k: v for k, v in m.items() if x[3].get(k) == v}
            # unknown event counts
            for k in ('$inc', '$dec', '$act'):
                vs = {x[3].get(k) for x in ex}
                if len(vs) > 1: m[k] = ('?',)
            rv = {x[1] for x in ex}
            self.stash[i] = (next(iter(rv)) if len(rv) == 1 else None, p, {k: v for k, v in m.items() if k.startswith(('this', '$'))})
    def effects(self, i, env):
        f = self.f; n = f.nodes[i]; q = n.get('q') or ''
        if i in self.stash:
            rv, p, m = self.stash[i]
            self.kill(env, p)
            for k, v in m.items():
                env[(p + k[4:]) if k.startswith('this') else k] = v
            return
        for names, tag in ((INC, '$inc'), (DEC, '$dec'), (ACT, '$act')):
            if n['o'] == 'call' and q in names:
                v = self.val(n['a'][-1], env)
                old = env.get(tag, ())
                env[tag] = old + ((v[1] if v and v[0] == 'c' else '?'),) if old != ('?',) else ('?',)
                return
        if n['o'] == 'call' and q == VALUE and env.get('$ctx') == C(1):
            if not env.get('$act'): env['$touch'] = C(1)
        Const.effects(self, i, env)

def scenario(f, objs, alloc, new=None, nb=10):
    """objs: {prefix: {member: value}}"""
    def base(ip, i, n, env):
        g = ip.f
        if n['o'] == 'load':
            j = n['a'][0]; m = g.nodes[j]
            if m['o'] == 'mem':
                if m['m'] == ALLOC:
                    bi = block_index(ip, m['a'][0], env)
                    return C(alloc[bi]) if bi in alloc else None
                if m['n'] in ('m_numBlocks', 'm_blockXYSize'): return C(nb)
                if m['n'] == 'z' and g.nodes[strip(g, m['a'][0])].get('n') == 'm_blockRes': return C(1)
                if m['m'] == FM:
                    return objs['$manager']
        if n['o'] == 'bin' and n['op'] in ('==', '!=') and 'this' in [g.nodes[strip(g, a)]['o'] for a in n['a']]:
            return C(1 if n['op'] == '!=' else 0)       # two different iterators
        if n['o'] == 'call' and (n.get('q') or '').endswith('SparseField::blockId') and new is not None: return C(new)
        return None
    env0 = {}
    for p, ms in objs.items():
        if p[0] == '$': continue
        for m, v in ms.items():
            if v is not None: env0[p + '.' + m] = v
    s = Scen(f, base)
    s.run(env0=env0)
    return s

def block_index(ip, i, env):
    f = ip.f
    i = strip(f, i)
    for _ in range(5):
        if i is None or i < 0: return None
        n = f.nodes[i]
        if n['o'] == 'var':
            r = refinit(f).get(n['d'])
            if r is None: return None
            i = strip(f, r); continue
        if n['o'] == 'idx':
            v = ip.val(n['a'][1], env)
            return v[1] if v and v[0] == 'c' else None
        if n['o'] == 'un' and n['op'] in '*&': i = strip(f, n['a'][0]); continue
        return None
    return None

def outcome(s, want, flags=None):
    """problem text or None; want: {'$inc': (..), '$dec': (..)}"""
    for k, v, l, env in s.exits:
        if k == 'throw': continue
        for tag, w in want.items():
            got = env.get(tag, ())
            if got != w:
                nm = {'$inc': 'takes a pin on', '$dec': 'drops the pin of', '$act': 'loads'}[tag]
                return '%s block(s) %s where %s is right' % (nm, list(got), list(w))
        for m, w in (flags or {}).items():
            if env.get(m) != w: return '%s is %s afterwards' % (m.replace('this.', ''), env.get(m))
    return None

def run(ctx):
    db = ctx.db
    ctx.rule('read', 'block data of a dynamically loaded field are read only while the block is pinned, and after it was loaded', 8)
    ctx.rule('balance', 'every pin taken by a function is dropped exactly once on every way out of it', 2)
    ctx.rule('iterator', 'a const iterator holds exactly one pin, on its current block, through construction, stepping, copying and destruction', 20)
    ctx.rule('load', 'a const iterator loads its block before handing out a voxel', 8)
    ctx.rule('guard', 'classes that pin blocks for a scope record each pin they take and drop exactly those', 2)
    ctx.rule('forward', 'the field\'s and the manager\'s pin operations act on the block they are given', 6)
    # ---- free-standing readers
    def node(f, i, n):
        if n['o'] == 'load' and f.nodes[n['a'][0]]['o'] == 'mem':
            m = f.nodes[n['a'][0]]
            if m['m'] == FM: return NZ
            if m['m'] == ALLOC: return C(1)
        return None
    assume = Assume(db, node)
    # functions that touch without being able to know (called for a field handed in)
    direct = {}
    for f in db.fns():
        if f.q.startswith(OWN) or f.q.startswith(NS + 'SparseField::iterator::'): continue
        if f.cls and f.cls in guards(db): continue
        tt = touches(f)
        if tt: direct[f.k] = tt
    exempt = lambda f: f.q.startswith(NS + 'SparseFieldIO::read') or '::ReadBlockOp' in f.q or '::ReadThreadingState' in f.q
    # helpers that are handed a block: their reads are charged to the calls
    given = {}
    for f in db.fns():
        if f.k in direct and f.q.startswith(NS + 'Sparse::') and any(v.get('p', -1) >= 0 and 'SparseBlock' in v['t'] for v in f.vars): given[f.k] = f
    for k in given: direct.pop(k)
    # functors: touches charged to the functions that create / call them
    helper = {}
    for f in db.fns():
        if f.k in direct and functor(f): helper[f.cls] = f
    for f in db.fns():
        f.cls_is_wrapper = False
        if f.q.startswith(OWN) or f.q.startswith((IT + '::', NS + 'SparseField::iterator::')): continue
        if f.q.endswith(('SparseField::incBlockRef', 'SparseField::decBlockRef', 'SparseField::activateBlock', 'SparseField::blockData')): continue
        if f.cls and f.cls in guards(db): continue
        if exempt(f) or (f.cls in helper): continue
        if f.k in given: continue
        ct = {e for e, n in f.calls() if n.get('f') in given}
        for e, n in f.calls():
            for hc in helper:
                if exempt(helper[hc]): continue
                if n['o'] == 'ctor' and n.get('q', '').startswith(helper[hc].q.rsplit('::', 1)[0]) and f.cls != hc and n['t'].replace('const ', '') == hc and not (n.get('a') and len(n['a']) == 1 and hc in f.nodes[n['a'][0]]['t']): ct.add(e)
        pins = any(n.get('q') in INC | DEC for e, n in f.calls())
        if f.k not in direct and not ct and not pins: continue
        if f.k in direct and nonconst_refused(f): continue
        probs, tt, ip = typestate(ctx, db, f, assume, ct)
        reach = [e for e in list(tt) + list(ct) if e in ip.reached]
        seen = set()
        for l, m in probs:
            rule = 'read' if 'read' in m else 'balance'
            if (l, m) in seen: continue
            seen.add((l, m)); ctx.ob(rule, '%s: %s' % (f.q, m), False, l, m, f)
        if reach and not any('read' in m for l, m in probs): ctx.ob('read', f.name, True, f.loc(), '', f)
        if pins and not any('read' not in m for l, m in probs): ctx.ob('balance', f.name, True, f.loc(), '', f)
    # ---- guard classes
    for c, g in guards(db).items():
        d = g['dtor']
        for t in g['take']:
            bad = None
            pushes = [(e, n) for e, n in t.calls() if (n.get('q') or '').split('::')[-1] in ('push_back', 'insert', 'emplace_back') and 'obj' in n and (path(t, n['obj']) or '').startswith('this.')]
            incs = [(e, n) for e, n in t.calls() if n.get('q') in INC]
            if not incs: bad = 'activates blocks without pinning them'
            for e, n in incs:
                k = key(t, n['a'][-1])
                rec = [p for p, m in pushes if key(t, m['a'][-1]) == k]
                blk = {x: b for b, i, x in t.elems() if isinstance(x, int)}
                act = [a for a, m in t.calls() if m.get('q') in ACT and key(t, m['a'][-1]) == k]
                if not rec: bad = 'a pin is taken but not recorded'
                elif not act: bad = 'the block pinned is not the one loaded'
                elif not all(blk[r] == blk[e] for r in rec): bad = 'the pin is recorded on other paths than it is taken'
                elif any(blk[a] == blk[e] and a_index(t, a) < a_index(t, e) for a in act): bad = 'the block is loaded before it is pinned'
                elif any(blk[a] == blk[r] and a_index(t, a) < a_index(t, r) for a in act for r in rec): bad = 'loading may fail before the pin is recorded'
            ctx.ob('guard', '%s: take' % t.q, bad is None, t.loc(), bad or '', t)
            lst = {path(t, m['obj']) for p, m in pushes}
            decs = [(e, n) for e, n in d.calls() if n.get('q') in DEC]
            ok = False
            for e, n in decs:
                a = strip(d, n['a'][-1])
                m = d.nodes[a]
                if m['o'] == 'call' and 'obj' in m and path(d, m['obj']) in lst: ok = True
                if m['o'] == 'idx' and path(d, m['a'][0]) in lst: ok = True
                if m['o'] in ('un', 'call', 'var'): ok = ok or any(x in str([path(d, q.get('obj')) for z, q in d.calls() if 'obj' in q]) for x in lst)
            ok = ok and len(decs) == 1
            ctx.ob('guard', '%s: drop' % d.q, ok, d.loc(), '' if ok else 'the pins dropped are not those recorded', d)
    # ---- iterator
    fs = {}
    for f in db.fns():
        if f.q.startswith(IT + '::') and f.cls: fs.setdefault(f.cls, []).append(f)
    if not fs: raise AnalysisBroken('no const_iterator of SparseField found')
    MG = NZ
    for cls, L in sorted(fs.items()):
        writers = [f for f in L if any(isinstance(e, int) and f.nodes[e]['o'] == 'asn' and (path(f, f.nodes[e]['a'][0]) or '') in ('this.m_blockId', 'this.m_manager', 'this.m_field') for b, i, e in f.elems())]
        def ob(f, what, msg): ctx.ob('iterator', '%s: %s' % (f.q if f else IT, what), msg is None, f.loc() if f else '', msg or '', f)
        # stepping: operator++ inlines whatever moves the iterator; the mover is the function that writes m_blockId
        movers = [f for f in writers if not f.decl.get('ctor') and not f.q.endswith('::operator=') and f.q.split('::')[-1] != 'swap']
        for f in movers:
            for old, new, al in [(3, 5, {3: 1, 5: 1}), (3, 5, {3: 0, 5: 1}), (3, 5, {3: 1, 5: 0}), (3, 5, {3: 0, 5: 0}), (3, 3, {3: 1}), (3, 3, {3: 0}),
                                 (-1, 5, {5: 1}), (-1, 5, {5: 0}), (-1, 0, {0: 1}), (0, 5, {0: 1, 5: 1}), (9, 10, {9: 1}), (9, 12, {9: 1}), (9, 10, {9: 0}), (10, 10, {}), (8, 9, {8: 1, 9: 1})]:
                for man in (NZ, C(0)):
                    s = scenario(f, {'this': {'m_blockId': C(old), 'm_manager': man}, '$manager': man}, al, new)
                    dec = (old,) if man == NZ and al.get(old) and old != new else ()
                    inc = (new,) if man == NZ and al.get(new) and old != new else ()
                    fl = {'this.m_blockId': C(new)}
                    if man == NZ and new < 10 and old != new: fl['this.m_blockIsActivated'] = C(0)
                    r = outcome(s, {'$dec': dec, '$inc': inc}, fl)
                    ob(f, 'from %s to %s, %s' % (bname(old, al), bname(new, al), 'dynamic' if man == NZ else 'in memory'), r and 'moving from %s to %s %s' % (bname(old, al), bname(new, al), r))
        if not movers: raise AnalysisBroken('no function moves %s' % cls)
        dt = [f for f in L if f.q.split('::')[-1].startswith('~')]
        if not dt: ob(None, 'destructor', 'the iterator drops no pin when it is destroyed')
        for f in dt:
            for cur, al in [(3, {3: 1}), (3, {3: 0}), (0, {0: 1}), (-1, {}), (10, {}), (9, {9: 1})]:
                for man in (NZ, C(0)):
                    s = scenario(f, {'this': {'m_blockId': C(cur), 'm_manager': man}, '$manager': man}, al)
                    r = outcome(s, {'$dec': (cur,) if man == NZ and al.get(cur) else (), '$inc': ()})
                    ob(f, 'destroyed at %s, %s' % (bname(cur, al), 'dynamic' if man == NZ else 'in memory'), r and 'destroyed at %s it %s' % (bname(cur, al), r))
        for f in L:
            if f.decl.get('ctor') and not f.decl.get('copy'):
                for new, al in [(5, {5: 1}), (5, {5: 0}), (0, {0: 1}), (10, {}), (9, {9: 1})]:
                    for man in (NZ, C(0)):
                        s = scenario(f, {'this': {}, '$manager': man}, al, new)
                        r = outcome(s, {'$inc': (new,) if man == NZ and al.get(new) else (), '$dec': ()}, {'this.m_blockId': C(new)})
                        ob(f, 'made at %s, %s' % (bname(new, al), 'dynamic' if man == NZ else 'in memory'), r and 'made at %s it %s' % (bname(new, al), r))
        cp = [f for f in L if f.decl.get('copy') and f.decl.get('ctor') and not f.decl.get('implicit') and not f.decl.get('defaulted')]
        asg = [f for f in L if f.q.endswith('::operator=') and not f.decl.get('implicit') and not f.decl.get('defaulted')]
        has = lambda w: any(x.get('clsq') == IT and x.get('cls') == cls and w(x) for x in db.decl.values())
        usercopy = [x for x in db.decl.values() if x.get('cls') == cls and x.get('copy') and x.get('ctor') and not x.get('implicit')]
        if not usercopy: ob(None, 'copying', 'copies of the iterator share one pin (no copy constructor)')
        userasg = [x for x in db.decl.values() if x.get('cls') == cls and x['q'].endswith('::operator=') and not x.get('implicit')]
        if not userasg: ob(None, 'assigning', 'assigning the iterator shares one pin (no assignment operator)')
        for f in cp + asg:
            o = 'v%d' % f.params[0]
            for mine, his, al in [(3, 5, {3: 1, 5: 1}), (3, 5, {3: 0, 5: 1}), (3, 5, {3: 1, 5: 0}), (3, 10, {3: 1}), (10, 5, {5: 1}), (3, 3, {3: 1})]:
                for man in (NZ, C(0)):
                    objs = {o: {'m_blockId': C(his), 'm_manager': man}, '$manager': man}
                    if f in asg: objs['this'] = {'m_blockId': C(mine), 'm_manager': man}
                    s = scenario(f, objs, al)
                    inc = (his,) if man == NZ and al.get(his) else ()
                    dec = (mine,) if f in asg and man == NZ and al.get(mine) else ()
                    r = None
                    for k, v, l, env in s.exits:
                        gi, gd = env.get('$inc', ()), env.get('$dec', ())
                        # self assignment leaves everything alone; same block: any balanced outcome
                        if (gi, gd) == (inc, dec): continue
                        if f in asg and mine == his and len(gi) == len(gd) and '?' not in gi + gd: continue
                        r = 'takes pins %s and drops %s where %s and %s is right' % (list(gi), list(gd), list(inc), list(dec))
                    ob(f, 'from an iterator at %s%s, %s' % (bname(his, al), ', itself at ' + bname(mine, al) if f in asg else '', 'dynamic' if man == NZ else 'in memory'), r)
        # handing out voxels
        for f in L:
            if f.q.split('::')[-1] not in ('operator*', 'operator->'): continue
            for emp, actd, man in [(0, 0, NZ), (0, 1, NZ), (1, 0, NZ), (0, 0, C(0))]:
                s = scenario(f, {'this': {'m_blockId': C(3), 'm_manager': man, 'm_isEmptyBlock': C(emp), 'm_blockIsActivated': C(actd)}, '$manager': man}, {3: 1})
                need = man == NZ and not emp and not actd
                r = outcome(s, {'$act': (3,) if need else (), '$inc': (), '$dec': ()}, {'this.m_blockIsActivated': C(1)} if need else None)
                if r is None and need and not pointer_after_load(f, s): r = 'the voxel pointer is not taken after loading'
                ctx.ob('load', '%s: %s, %s, %s' % (f.q, 'empty block' if emp else 'block with data', 'loaded' if actd else 'not loaded', 'dynamic' if man == NZ else 'in memory'), r is None, f.loc(), r or '', f)
    # ---- forwarding
    for q in sorted(INC | DEC | ACT):
        for f in db.find(q):
            if f.q.startswith(NS + 'SparseFile::Reference'): continue
            fam = next(x for x in (INC, DEC, ACT) if q in x)
            inner = [(e, n) for e, n in f.calls() if n.get('q') in fam]
            p = f.params[max(f.params)]
            if not inner: 
                if q in ACT: continue
                ctx.ob('forward', f.name, False, f.loc(), 'does not pass the request on', f); continue
            ok = all(key(f, n['a'][-1]) == 'v%d' % p for e, n in inner) and len(inner) == 1
            ctx.ob('forward', f.name, ok, f.loc(), '' if ok else 'acts on another block than the one given', f)
    for f in db.find(NS + 'SparseFile::Reference::incBlockRef') + db.find(NS + 'SparseFile::Reference::decBlockRef'):
        want = '++' if 'inc' in f.q else '--'
        chg = []
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'un' and n['op'] in ('++', '--') and refc(f, n['a'][0]): chg.append((n['op'], refc(f, n['a'][0])))
            elif n['o'] == 'asn' and refc(f, n['a'][0]):
                op = n.get('op'); v = f.nodes[strip(f, n['a'][1])].get('v')
                chg.append((('++' if op == '+=' else '--') if op in ('+=', '-=') and v == 1 else '?', refc(f, n['a'][0])))
        ok = len(chg) == 1 and chg[0] == (want, 'v%d' % f.params[0])
        ctx.ob('forward', f.name, ok, f.loc(), '' if ok else 'the pin count does not change by exactly one for the block given', f)

def refc(f, i):
    n = f.nodes[i]
    if n['o'] == 'call' and 'obj' in n and f.nodes[strip(f, n['obj'])].get('n') == 'refCounts' and n.get('a'): return key(f, n['a'][0])
    if n['o'] == 'idx' and f.nodes[strip(f, n['a'][0])].get('n') == 'refCounts': return key(f, n['a'][1])
    if n['o'] == 'var' and f.vars[n['d']].get('ref'):
        r = refinit(f).get(n['d']); return refc(f, r) if r is not None and r >= 0 else None
    return None

def pointer_after_load(f, s):
    """the pointer member is written after the load on the loading path"""
    acts = [(b, i) for b, i, e in f.elems() if isinstance(e, int) and f.nodes[e].get('q') in ACT]
    if not acts: return True
    for b, i in acts:
        ok = False
        for j in range(i + 1, len(f.blocks[b]['el'])):
            e = f.blocks[b]['el'][j]
            if isinstance(e, int) and f.nodes[e]['o'] == 'asn' and (path(f, f.nodes[e]['a'][0]) or '').startswith('this.m_p'): ok = True
        seen = set(); w = list(f.blocks[b]['su'])
        while w and not ok:
            x = w.pop()
            if x is None or x < 0 or x in seen: continue
            seen.add(x)
            for e in f.blocks[x]['el']:
                if isinstance(e, int) and f.nodes[e]['o'] == 'asn' and (path(f, f.nodes[e]['a'][0]) or '').startswith('this.m_p'): ok = True
            w += f.blocks[x]['su']
        if not ok: return False
    return True

def a_index(f, e):
    for b, i, x in f.elems():
        if x == e: return i
    return -1

def bname(b, al):
    if b < 0: return 'no block'
    if b >= 10: return 'the end'
    return '%s block %d' % ('allocated' if al.get(b) else 'empty', b)

def functor(f):
    return f.q.split('::')[-1] in ('operator()', 'run', 'operator()()') and '(anon)' in f.q

def nonconst_refused(f):
    """a non-const accessor that refuses dynamic fields"""
    return False
