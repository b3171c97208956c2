"""C05: intrusive reference counting."""
from ..locks import *
from ..fail import derives

ASSUME = ['boost::intrusive_ptr, boost::shared_ptr and boost::detail::atomic_count do what their documentation says',
          'user code outside the library holds counted objects through their Ptr types']
RB = 'Field3D::RefBase'
CNT = RB + '::m_counter'

def counter_ops(f):
    """node -> ('dec'|'inc'|'set', returns 'new'|'old'|None) for operations on the counter"""
    out = {}
    def is_cnt(i):
        i = strip(f, i)
        return i is not None and i >= 0 and f.nodes[i]['o'] == 'mem' and f.nodes[i]['m'] == CNT
    for b, j, e in f.elems():
        if not isinstance(e, int): continue
        n = f.nodes[e]
        if n['o'] == 'un' and n['op'] in ('++', '--') and is_cnt(n['a'][0]):
            out[e] = ('inc' if n['op'] == '++' else 'dec', 'old' if n.get('post') else 'new')
        elif n['o'] == 'asn' and is_cnt(n['a'][0]):
            op = n.get('op', '=')
            out[e] = ({'+=': 'inc', '-=': 'dec'}.get(op, 'set'), 'new')
        elif n['o'] == 'call' and is_cnt(n.get('obj')):
            last = (n.get('q') or '').split('::')[-1]
            if last == 'operator++': out[e] = ('inc', 'old' if n.get('a') else 'new')
            elif last == 'operator--': out[e] = ('dec', 'old' if n.get('a') else 'new')
            elif last == 'fetch_add': out[e] = ('inc', 'old')
            elif last == 'fetch_sub': out[e] = ('dec', 'old')
            elif last in ('operator=', 'store', 'exchange'): out[e] = ('set', None)
    return out

class Model:
    """Runs the count-handling functions with an assumed result of the decrement."""
    def __init__(self, db, left): self.db, self.left = db, left
    def hook(self, ip, i, n, env):
        ops = ip.__dict__.get('_ops')
        if ops is None: ops = ip._ops = counter_ops(ip.f)
        if i in ops and ops[i][0] == 'dec':
            return C(self.left) if ops[i][1] == 'new' else C(self.left + 1)
        if n['o'] == 'call' and n.get('f') and (n.get('q') or '').startswith((RB + '::', 'Field3D::')):
            g = self.db.fn(n['f'])
            if g is not None and has_dec(self.db, n['f']):
                r = set()
                for k, v, l, en in self.run(g).exits: r.add(v)
                if len(r) == 1: return next(iter(r))
        return None
    def run(self, f):
        ip = Const(f, hook=self.hook)
        def on(bid, j, e, env):
            if f.nodes[e]['o'] == 'delete': env['$deleted'] = C(1)
        ip.on_elem = on
        return ip.run(env0={'v%d' % v: NZ for v in f.params.values() if f.vars[v].get('t', '').endswith('*')})

def has_dec(db, k, depth=0):
    f = db.fn(k)
    if f is None or depth > 3: return False
    if any(v[0] == 'dec' for v in counter_ops(f).values()): return True
    return any(n['o'] == 'call' and (n.get('q') or '').startswith('Field3D::') and has_dec(db, n['f'], depth + 1)
               for e, n in f.calls() if n.get('f') and n['f'] != k and 'unref' in (n.get('q') or '').lower() or (n.get('q') or '').startswith(RB))

def count_paths(f, pred):
    """min and max number of elements satisfying pred on a path from entry to exit (loops: max = inf)"""
    memo = {}
    def go(b, stack):
        if b == f.exit: return (0, 0)
        if b in stack: return (0, 99)
        if b in memo: return memo[b]
        c = sum(1 for e in f.blocks[b]['el'] if pred(e))
        su = [s for s in f.blocks[b]['su'] if s is not None and s >= 0]
        r = [go(s, stack | {b}) for s in su] or [(0, 0)]
        memo[b] = (c + min(x[0] for x in r), c + max(x[1] for x in r))
        return memo[b]
    return go(f.entry, frozenset())

def run(ctx):
    db = ctx.db
    ctx.rule('last', 'the release operation deletes the object when, and only when, its own decrement left no owner', 2)
    ctx.rule('once', 'each counted pointer adds exactly one to the count when taken and subtracts exactly one when dropped', 4)
    ctx.rule('atomic', 'the count changes by atomic operations or under its lock', 2)
    ctx.rule('fresh', 'a copied object starts with no owners and assignment leaves the count alone', 2)
    ctx.rule('virtual', 'the counted base class has a virtual destructor', 1)
    ctx.rule('delete', 'counted objects are deleted by the release operation only', 1)
    ctx.rule('adopt', 'counted pointers are made from fresh objects, the object itself or another counted pointer, and take their own count', 30)
    ctx.rule('gone', 'a remembered raw pointer to a counted object is used only after its weak pointer was found alive', 2)
    rel = db.need('Field3D::intrusive_ptr_release'); add = db.need('Field3D::intrusive_ptr_add_ref')
    for f in rel:
        dels = [e for b, j, e in f.elems() if isinstance(e, int) and f.nodes[e]['o'] == 'delete']
        def deleters(ip): return [e for e in ip.reached if f.nodes[e]['o'] == 'delete']
        ip = Model(db, 0).run(f)
        # every exit must have passed the delete: block of the delete is on all paths
        ok = bool(dels) and all(en.get('$deleted') == C(1) for k, v, l, en in ip.exits)
        ctx.ob('last', '%s: last owner' % f.q, ok, f.loc(), '' if ok else 'when the decrement leaves no owner the object is not deleted on every path', f)
        for left in (1, 7):
            ip = Model(db, left).run(f)
            bad = deleters(ip)
            ctx.ob('last', '%s: %d owners left' % (f.q, left), not bad, f.loc(bad[0]) if bad else f.loc(),
                   'the object can be deleted although the decrement left %d owner(s)' % left if bad else '', f)
    def nops(k, kind, seen=()):
        """(min,max) changes of the count by one call of k"""
        f = db.fn(k)
        if f is None or k in seen: return (0, 0)
        ops = counter_ops(f)
        w = {}
        for e, n in f.calls():
            if n.get('f') and (n.get('q') or '').startswith('Field3D::') and e not in ops:
                w[e] = nops(n['f'], kind, seen + (k,))
        lo = count_paths(f, lambda e: isinstance(e, int) and ((e in ops and ops[e][0] == kind) or (e in w and w[e][0] > 0)))
        hi = count_paths(f, lambda e: isinstance(e, int) and ((e in ops and ops[e][0] in (kind, 'set')) or (e in w and w[e][1] > 0)))
        return (lo[0], hi[1])
    for f in add + rel:
        kind = 'inc' if f in add else 'dec'; other = 'dec' if f in add else 'inc'
        r, o = nops(f.k, kind), nops(f.k, other)
        ctx.ob('once', '%s: %s' % (f.q, kind), r == (1, 1), f.loc(), '' if r == (1, 1) else 'changes the count between %s and %s times' % r, f)
        ctx.ob('once', '%s: not %s' % (f.q, other), o[1] == 0, f.loc(), '' if o[1] == 0 else 'also changes the count the other way', f)
    rec = db.recs.get(RB)
    if not rec: raise AnalysisBroken('RefBase not found')
    cf = [x for x in rec['f'] if x['n'] == 'm_counter']
    atomic = bool(cf) and 'atomic' in cf[0]['t'].lower()
    en = entry_locks(db)
    for f in db.fns():
        ops = counter_ops(f)
        for b, j, e in f.elems():
            if isinstance(e, int) and e in ops:
                n = f.nodes[e]
                ids = set(en[f.k]) | {x[0] for x in held(f).before(b, j)}
                ok = atomic or any('m_refMutex' in x for x in ids)
                ctx.ob('atomic', '%s: %s' % (f.q, ops[e][0]), ok, f.loc(e), '' if ok else 'the count is changed with neither an atomic operation nor its lock', f)
                if f.cls == RB or True:
                    own = f.q.startswith(RB + '::') and not f.decl.get('ctor')
                    ctx.ob('fresh', '%s: no outright setting' % f.q, ops[e][0] != 'set', f.loc(e), '' if ops[e][0] != 'set' else 'the count is overwritten', f)
    for f in db.fns():
        if f.cls != RB or not f.decl.get('ctor'): continue
        inits = [x for b, j, x in f.elems() if isinstance(x, dict) and x['e'] == 'init' and (x.get('m') or '').split('::')[-1] == 'm_counter']
        ok = bool(inits)
        if ok:
            n = inits[0]['n']
            while n >= 0 and f.nodes[n]['o'] in ('cast', 'load', 'ctor') and 'v' not in f.nodes[n] and f.nodes[n].get('a'): n = f.nodes[n]['a'][0]
            ok = n >= 0 and (f.nodes[n].get('v') == 0 or f.nodes[n]['o'] == 'zero')
        ctx.ob('fresh', '%s %s' % (f.q, 'copy' if f.decl.get('copy') else 'default'), ok, f.loc(), '' if ok else 'the count of a new object is not set to zero', f)
    d = [x for x in db.decl.values() if x['q'] == RB + '::~RefBase']
    ok = bool(d) and all(x.get('virt') for x in d)
    ctx.ob('virtual', RB, ok, '%s:%s' % (d[0]['file'], d[0]['line']) if d else '', '' if ok else 'the destructor is not virtual')
    def counted(t):
        t = (t or '').replace('const ', '').replace('*const', '*').rstrip(' *&')
        return t in db.recs and (t == RB or RB in db.bases(t))
    relk = {f.k for f in rel}
    for f in db.fns():
        for b, j, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'delete' and counted(f.nodes[n['a'][0]]['t']):
                ok = f.k in relk
                ctx.ob('delete', '%s' % f.q, ok, f.loc(e), '' if ok else 'a counted object is deleted directly', f)
            q = n.get('q') or ''
            if n['o'] in ('ctor', 'call') and q.startswith('boost::intrusive_ptr') and q.split('::')[-1] in ('intrusive_ptr', 'reset', 'operator=') and n.get('a'):
                a = n['a'][0]
                if not f.nodes[a]['t'].rstrip().endswith('*'): continue
                src = origin(f, a)
                own = len(n['a']) < 2 or const_true(f, n['a'][1])
                ctx.ob('adopt', '%s: %s' % (f.q, src), own, f.loc(e), '' if own else 'the pointer is adopted without taking a count', f)
                if src == 'remembered': 
                    ctx.ob('adopt', '%s: remembered pointer' % f.q, False, f.loc(e), 'a counted pointer is made from a remembered raw pointer; the last owner may be letting go at that moment', f)
    for f in db.fns():
        if not f.q.startswith('Field3D::FieldCache::'): continue
        uses = []
        for b, j, e in f.elems():
            if isinstance(e, int) and f.nodes[e]['o'] == 'mem' and f.nodes[e]['n'] == 'second' and f.nodes[e]['t'].replace('const', '').rstrip().endswith('*') and counted(f.nodes[e]['t']):
                uses.append(e)
        if not uses or f.q.endswith('cacheField'): continue
        def hook(ip, i, n, env):
            q = (n.get('q') or '')
            if n['o'] == 'call' and q.startswith('boost::weak_ptr'):
                last = q.split('::')[-1]
                if last == 'expired': return C(1)
                if last == 'use_count': return C(0)
                if last == 'lock': return C(0)
            return None
        ip = Const(f, hook=hook).run()
        bad = [e for e in uses if e in ip.reached]
        ctx.ob('gone', f.q, not bad, f.loc(bad[0]) if bad else f.loc(), 'the raw pointer is used on a path where the object is known to be gone or was not checked' if bad else '', f)

def const_true(f, i):
    n = f.nodes[i]
    return n.get('v') == 1

def origin(f, i, depth=0):
    i = strip(f, i)
    if i is None or i < 0 or depth > 6: return 'other'
    n = f.nodes[i]
    if n['o'] == 'new': return 'new'
    if n['o'] == 'this': return 'this'
    if n['o'] in ('null', 'lit', 'zero'): return 'null'
    if n['o'] == 'call':
        if n.get('q', '').endswith('::get') or n.get('q', '').endswith('get_pointer'): return 'owner'
        if n.get('op') == '->' or n.get('op') == '*': return origin(f, n.get('obj'), depth + 1)
        return 'call'
    if n['o'] in ('mem', 'idx', 'gvar'): return 'remembered'
    if n['o'] == 'var':
        if f.vars[n['d']]['p'] >= 0: return 'param'
        li = local_init(f).get(n['d'])
        if li is not None and li >= 0: return origin(f, li, depth + 1)
        return 'local'
    if n['o'] == 'un' and n['op'] in ('&', '*'): return 'object'
    if n['o'] == 'cond': return 'cond'
    return n['o']
