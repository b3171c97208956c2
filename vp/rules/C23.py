"""An output file is marked complete only after all its contents are in it."""
import re
from ..core import *
from ..inline import inline
ASSUME = ['bytes handed to the stream reach the file in the order they were handed over, as far as a crash can tell',
          'the archive of a file is closed by one thread', 'with a handler for HDF5 in place there is no Ogawa archive to close (C16)']

OUT = 'Field3D::Field3DOutputFile'

def member(f, i, suffix):
    p = path(f, i)
    return p is not None and re.search(r'(^|[.*])%s\*?$' % re.escape(suffix), p)

def last(n): return (n.get('q') or '').split('::')[-1]

def same(cls):
    def pick(f, n, t):
        d = f.db.decl[t]
        return (d.get('clsq') or d.get('cls')) == cls and not d.get('ctor') and not d.get('dtor')
    return pick

def closing(ctx):
    db = ctx.db
    rec = db.recs[OUT]['f'] + [x for b in db.bases(OUT) for x in (db.recs.get(b) or {'f': []})['f']]
    arch = [m['n'] for m in rec if is_smart(m['t']) and 'OArchive' in m['t']]
    root = [m['n'] for m in rec if is_smart(m['t']) and 'OgOGroup' in m['t']]
    parts = [m['n'] for m in rec if 'Partition>' in m['t'] and 'vector' in m['t']]
    if not arch or not root or not parts: raise AnalysisBroken('the members of the output file were not found: %s %s %s' % (arch, root, parts))
    A, R, P = arch[0], root, parts[0]
    live = {m: '$' + m for m in R + [P]}
    def hook(ip, i, n, env):
        f = ip.f
        if n['o'] == 'mem' and is_smart(n['t']) and 'HDF5' in n['t']: return C(0)
        if n['o'] in ('load', 'call') : return None
        return None
    rev = {}
    for a, l in call_map(db).items():
        for b in l: rev.setdefault(b, set()).add(a)
    npts = 0
    for k, d in sorted(db.decl.items()):
        if k not in db.raw or d.get('cls') != OUT or d.get('ctor') or d.get('implicit'): continue
        # a private helper is judged where it is called
        if d.get('acc') and not d.get('virt') and any(db.decl[c].get('cls') == OUT for c in rev.get(k, ()) if c != k): continue
        f = inline(db, k, same(OUT))
        if not any(n['o'] == 'mem' and n['n'] == A for n in f.nodes): continue
        bad = []; pts = []
        ip = Const(f, hook=hook)
        def on(bid, j, e, env):
            nonlocal npts
            n = f.nodes[e]
            if n['o'] != 'call' or 'obj' not in n: return
            l = last(n); o = n['obj']
            if l == 'swap' and len(n.get('a') or ()) == 1:
                t = f.nodes[strip(f, o)]; q = path(f, n['a'][0])
                if t['o'] == 'ctor' and not [a for a in t.get('a', ()) if 'allocator' not in f.nodes[a].get('t', '')]:
                    for m in live:
                        if q == 'this.' + m: env[live[m]] = C(0)
            for m in live:
                if member(f, o, 'this.' + m) or path(f, o) == 'this.' + m:
                    if l in ('clear',) or l == 'reset' and not n.get('a') or l == 'resize' and n['a'] and f.nodes[n['a'][0]].get('v') == 0: env[live[m]] = C(0)
                    elif l in ('push_back', 'reset', 'operator=', 'insert', 'swap', 'assign'):
                        a = n.get('a') or []
                        z = l == 'operator=' and len(a) == 1 and f.nodes[strip(f, a[0])]['o'] == 'ctor' and not f.nodes[strip(f, a[0])].get('a')
                        if z: env[live[m]] = C(0)
                        else: env.pop(live[m], None)
            p = path(f, o)
            fin = False
            if p == 'this.' + A and l in ('reset', 'operator=', 'swap'):
                fin = True
                v = env.get('this.' + A)
            elif p in ('this.' + A, 'this.' + A + '*') and (db.decl.get(n['f'], {}).get('cls') or '').endswith('OArchive') and l not in ('isValid', 'getGroup'): fin = True; v = None
            if fin:
                pts.append(e)
                for m in live:
                    if env.get(live[m]) != C(0) and v != C(0):
                        bad.append((e, 'the archive is finished here while %s may still hold groups that are not written' % m))
        ip.on_elem = on
        # the file object was closed before it is created anew: nothing to remember
        ip.run()
        if d.get('dtor') :
            # whatever the body leaves goes in reverse order of declaration
            for kd, v, l, env in ip.exits:
                if kd == 'throw' or env.get('this.' + A) == C(0): continue
                order = [m['n'] for m in db.recs[OUT]['f']]
                for m in live:
                    if env.get(live[m]) != C(0) and not (m in order and order.index(m) > order.index(A)):
                        bad.append((-1, 'the destructor leaves the archive to be destroyed before ' + m))
            pts.append(-1)
        if not pts: continue
        bad = sorted(set(bad))
        ctx.ob('close', f.q, not bad, f.loc(bad[0][0]) if bad else f.loc(), bad[0][1] if bad else '', f)

def groups(ctx):
    db = ctx.db
    G = 'Alembic::Ogawa::OGroup'
    recs = {q: r for q, r in db.recs.items() if q.startswith(G + '::') or q == G}
    flds = [m for r in recs.values() for m in r['f']]
    par = [m for m in flds if 'OGroup' in m['t'] and ('vector' in m['t'] or 'list' in m['t'])]
    kids_ = [m['n'] for m in flds if re.search(r'vector<unsigned long', m['t'])]
    strm = [m['n'] for m in flds if 'OStream' in m['t']]
    if not kids_ or not strm: raise AnalysisBroken('the members of an Ogawa group were not found')
    ok = bool(par) and all('shared_ptr' in m['t'] and 'weak_ptr' not in m['t'] for m in par)
    ctx.ob('hold', 'OGroup: parents', ok, '%s' % (db.recs[G].get('file') or 'src/OGroup.cpp'), '' if ok else 'a group does not keep the groups that refer to it alive', None)
    sok = all('shared_ptr' in m['t'] for m in flds if 'OStream' in m['t'])
    ctx.ob('hold', 'OGroup: stream', sok, 'src/OGroup.cpp', '' if sok else 'a group does not keep its stream alive', None)
    PAR = par[0]['n'] if par else 'parents'; KID = kids_[0]; STR = strm[0]
    POS = [m['n'] for m in flds if m['t'] == 'unsigned long']
    home = {db.fn(k).file for k, d in db.decl.items() if k in db.raw and d.get('cls') == G and not d.get('implicit')}
    own = lambda f, n, t: t in f.db.raw and not f.db.decl[t].get('cls') and f.db.fn(t).file in home or (f.db.decl[t].get('clsq') or f.db.decl[t].get('cls') or '').startswith(G) and not f.db.decl[t].get('ctor') and not f.db.decl[t].get('dtor') and t in f.db.raw
    for k, d in sorted(db.decl.items()):
        if k not in db.raw or not (d.get('cls') or '').startswith(G): continue
        f0 = db.fn(k)
        if d.get('ctor'):
            tk = [q for q, v in f0.params.items() if 'shared_ptr' in f0.vars[v]['t'] and 'OGroup' in f0.vars[v]['t']]
            if tk:
                hit = any(n['o'] == 'call' and last(n) in ('push_back', 'emplace_back', 'insert') and member(f0, n['obj'], PAR) for e, n in f0.calls() if 'obj' in n)
                ctx.ob('hold', '%s %s' % (d['q'], ', '.join(d.get('pt', ()))[:40]), hit, f0.loc(), '' if hit else 'a new group does not keep its parent alive until it is written', f0)
            continue
        if d.get('dtor') or d.get('implicit'): 
            if d.get('dtor') and d.get('cls') == G:
                f = inline(db, k, lambda f, n, t: False)
                ip = Const(f, hook=lambda ip, i, n, env: C(0) if n['o'] == 'call' and last(n) == 'isFrozen' else None)
                def on(bid, j, e, env):
                    n = f.nodes[e]
                    if n['o'] == 'call' and n.get('f') and any(frozen_write(db, t, KID, STR, own) for t in db.targets(n)): env['$w'] = C(1)
                ip.on_elem = on; ip.single_fault = True; ip.run()
                hit = bool(ip.exits) and all(x[3].get('$w') == C(1) for x in ip.exits if x[0] != 'throw')
                ctx.ob('freeze', d['q'], hit, f0.loc(), '' if hit else 'a group can go away without having been written', f0)
            continue
        # handing a parent to a new child
        for e, n in f0.calls():
            if n['o'] in ('call', 'ctor') and 'Pair' in (n.get('t') or '') : pass
        f = inline(db, k, own)
        W = Order(f, KID, STR, PAR, POS)
        if not W.interesting: continue
        W.run()
        for (what, e), (good, msg) in sorted(W.res.items(), key=lambda x: (x[0][0], x[0][1])):
            ctx.ob(what, '%s#%d' % (f.q, W.ordinal(what, e)), good, f.loc(e), '' if good else msg, f)
    # adding a child that is not written yet
    for k, d in sorted(db.decl.items()):
        if k not in db.raw or d.get('cls') != G or d.get('ctor'): continue
        f = db.fn(k)
        for e, n in f.calls():
            if last(n) in ('push_back', 'emplace_back') and 'obj' in n and member(f, n['obj'], PAR):
                src = closure(f, n['a'][0])
                hit = any((f.nodes[x].get('q') or '').endswith('shared_from_this') for x in src)
                ctx.ob('hold', '%s' % d['q'], hit, f.loc(e), '' if hit else 'the child does not keep this group alive until it is written', f)

def frozen_write(db, t, KID, STR, own):
    if t not in db.raw: return False
    f = inline(db, t, own)
    W = Order(f, KID, STR, '?', [])
    return any(W.contents(n) for e, n in f.calls())

def closure(f, i):
    todo = [i]; out = []
    while todo:
        j = todo.pop()
        if j is None or j < 0: continue
        out.append(j); todo += kids(f.nodes[j])
    return out

class Order:
    """Within one function of a group: its own contents, references to it, its parents."""
    def __init__(self, f, KID, STR, PAR, POS):
        self.f = f; self.KID, self.STR, self.PAR, self.POS = KID, STR, PAR, POS
        self.res = {}
        self.interesting = any(self.kind(e) for b, j, e in f.elems() if isinstance(e, int))
    def stream(self, n, names):
        return n['o'] == 'call' and 'obj' in n and (self.f.db.decl.get(n.get('f'), {}).get('cls') or '').endswith('OStream') and last(n) in names
    def mine(self, p): return p is not None and (p.startswith('this.mData') or p.startswith('this.')) and not '[' in p
    def kids_(self, o):
        p = path(self.f, strip(self.f, o)) or ''
        return bool(re.search(r'\.%s$' % self.KID, p)) and self.mine(p)
    def contents(self, n):
        """writes the list of children"""
        if not self.stream(n, ('write',)): return False
        return any(re.search(r'\.%s$' % self.KID, path(self.f, x) or '') and self.mine(path(self.f, x)) for x in closure(self.f, n['a'][0]))
    def kind(self, e):
        f = self.f; n = f.nodes[e]
        if self.contents(n): return 'contents'
        if self.stream(n, ('write',)) and any(f.nodes[x]['o'] == 'mem' and f.nodes[x]['n'] in self.POS and self.mine(path(f, x)) for x in closure(f, n['a'][0])): return 'refer'
        if n['o'] == 'asn':
            t = f.nodes[strip(f, n['a'][0])]
            base = t['obj'] if t['o'] == 'call' and last(t) in ('operator[]', 'at') and 'obj' in t else t['a'][0] if t['o'] in ('idx', 'call') and t.get('a') else None
            if base is not None:
                b = f.nodes[strip(f, base)]
                if b['o'] == 'mem' and b['n'] == self.KID and not self.mine(path(f, strip(f, base))): return 'refer'
        if n['o'] == 'call' and 'obj' in n and member(f, n['obj'], self.PAR) and self.mine(path(f, n['obj'])) and last(n) in ('clear', 'pop_back', 'erase', 'resize', 'swap', 'assign', 'operator='): return 'release'
        if n['o'] == 'ctor' and (n.get('q') or '').endswith('OData::OData') and len(n.get('a', ())) >= 3: return 'data'
        return None
    def ordinal(self, what, e):
        return sorted(x for w, x in self.res if w == what).index(e)
    def run(self):
        f = self.f
        # a group without children has no contents to write
        def hook(ip2, i, n, env):
            if n['o'] == 'call' and 'obj' in n and self.kids_(n['obj']):
                if last(n) == 'empty': return C(0)
                if last(n) == 'size': return NZ
            return None
        ip = Const(f, hook=hook)
        def on(bid, j, e, env):
            n = f.nodes[e]
            k = self.kind(e)
            if self.stream(n, ('getAndSeekEndPos',)): env['$end'] = C(1)
            elif self.stream(n, ('seek',)): env['$end'] = C(0)
            elif self.stream(n, ('write',)) and k != 'refer' and env.get('$end') != C(1):
                self.note('order', e, False, 'writes contents into what is already in the stream')
            if k == 'contents': env['$own'] = C(1)
            elif k in ('refer', 'release'):
                self.note('order', e, env.get('$own') == C(1), 'the group is referred to, or lets go of its parents, before its own contents are in the stream')
            elif k == 'data':
                ok = self.written(bid, j)
                self.note('data', e, ok, 'a data piece is handed out, to be referred to, before it is in the stream')
        ip.on_elem = on; ip.run()
        self.ip = ip
    def note(self, what, e, ok, msg):
        o = self.res.get((what, e))
        self.res[(what, e)] = ((o[0] if o else True) and ok, msg)
    def written(self, bid, j):
        """both the size and the payload are written on every way here"""
        f = self.f
        def must(target):
            # a path from the entry to (bid, j) without a matching write?
            seen = set(); w = [f.entry]
            while w:
                b = w.pop()
                if b in seen: continue
                seen.add(b)
                stop = False
                for i, e in enumerate(f.blocks[b]['el']):
                    if b == bid and i == j: return False
                    if isinstance(e, int) and self.stream(f.nodes[e], ('write',)) and target(f.nodes[e], b): stop = True; break
                if not stop: w += [s for s in f.blocks[b]['su'] if s in f.blocks]
            return True
        from .C15 import natloops
        lp = natloops(f)
        size = lambda n, b: any(f.nodes[x].get('v') == 8 for x in closure(f, n['a'][1])) and any(f.nodes[x]['o'] == 'un' and f.nodes[x]['op'] == '&' for x in closure(f, n['a'][0]))
        pay = lambda n, b: not size(n, b)
        # a payload of several parts is written in a loop over the parts
        hs = {h for h, body in lp.items() if any(isinstance(e, int) and self.stream(f.nodes[e], ('write',)) and pay(f.nodes[e], b) for b in body for e in f.blocks[b]['el'])}
        def must2():
            seen = set(); w = [f.entry]
            while w:
                b = w.pop()
                if b in seen or b in hs: continue
                seen.add(b); stop = False
                for i, e in enumerate(f.blocks[b]['el']):
                    if b == bid and i == j: return False
                    if isinstance(e, int) and self.stream(f.nodes[e], ('write',)) and pay(f.nodes[e], b): stop = True; break
                if not stop: w += [s for s in f.blocks[b]['su'] if s in f.blocks]
            return True
        return must(size) and must2()

def marks(ctx):
    """the byte that marks the file as complete"""
    db = ctx.db
    S = 'Alembic::Ogawa::OStream'
    fns_ = [k for k in db.raw if (db.decl[k].get('cls') or '').startswith(S)]
    markers = {}
    head = []
    for k in sorted(fns_):
        f = db.fn(k)
        for e, n in f.calls():
            q = n.get('q') or ''
            if q.startswith('std::basic_ostream') and last(n) == 'seekp' and n.get('a'):
                vs = {f.nodes[x].get('v') for x in closure(f, n['a'][0])}
                if 5 in vs: markers.setdefault(k, e)
        for i, n in enumerate(f.nodes):
            if n['o'] == 'ilist' and len(n['a']) == 16: head.append((f, i, [f.nodes[a].get('v') for a in n['a']]))
    if not markers or not head: raise AnalysisBroken('the header or the mark of an Ogawa file was not found')
    for f, i, vs in head:
        ok = vs[5] == 0
        ctx.ob('mark', 'header in ' + f.q, ok, f.loc(i), '' if ok else 'the header of a new file already marks it as complete', f)
    # a stream that failed stays failed: the mark can't be written any more
    for k in sorted(fns_):
        f = db.fn(k)
        bad = [e for e, n in f.calls() if n.get('q') and re.match(r'std::basic_(ios|ostream|ofstream)\b.*::clear$', n['q'])]
        if bad: ctx.ob('mark', 'errors in ' + f.q, False, f.loc(bad[0]), 'the stream forgets that a write failed', f)
    # nobody else writes into the header but the position of the root
    for k in db.raw:
        f = db.fn(k)
        if f is None or f.file.startswith('/'): continue
        for e, n in f.calls():
            if (n.get('q') or '') == S + '::seek' and n.get('a'):
                i = strip(f, n['a'][0]); v = f.nodes[i].get('v')
                if v is not None:
                    ctx.ob('mark', 'seek in %s' % f.q, v == 8, f.loc(e), '' if v == 8 else 'writes into the header at byte %s' % v, f)
    # who calls the marking functions
    callers = {}
    for a, b in ((a, b) for a, l in call_map(db).items() for b in l): callers.setdefault(b, set()).add(a)
    seen = set(); todo = list(markers)
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        d = db.decl[k]; f = db.fn(k)
        cls = (d.get('cls') or '')
        if cls.startswith(S):
            if d.get('dtor'):
                ctx.ob('mark', d['q'], True, f.loc(), '', f)       # every group holds the stream (rule hold)
                continue
            cs = callers.get(k, set())
            if d.get('ctor'):
                ctx.ob('mark', d['q'], False, f.loc(), 'marks the file as complete when it has only just been started', f)
                continue
            ctx.ob('mark', d['q'], bool(cs), f.loc(), '' if cs else 'nothing marks the file as complete', f)
            todo += [c for c in cs]
        elif cls == 'Alembic::Ogawa::OArchive':
            # the archive gives up its own group first
            gm = [m['n'] for m in db.recs[cls]['f'] if is_smart(m['t']) and 'OGroup' in m['t']]
            g = inline(db, k, same(cls))
            ip = Const(g); bad = []; n0 = []
            def on(bid, j, e, env):
                n = g.nodes[e]
                if n['o'] != 'call' or 'obj' not in n: return
                for m in gm:
                    if path(g, n['obj']) == 'this.' + m and (last(n) == 'reset' and not n.get('a')): env['$g'] = C(0)
                if n.get('f') in seen:
                    n0.append(e)
                    if gm and env.get('$g') != C(0): bad.append(e)
            ip.on_elem = on; ip.run()
            ctx.ob('mark', d['q'], not bad, g.loc(bad[0]) if bad else g.loc(), 'marks the file as complete while the archive still holds its top group' if bad else '', g)
        elif cls == OUT: pass        # rule close
        else:
            ctx.ob('mark', d['q'], False, f.loc(), 'marks an output file as complete outside of closing it', f)
    # the archive's members: the stream outlives the group
    r = db.recs.get('Alembic::Ogawa::OArchive')
    if r:
        o = [('g' if 'OGroup' in m['t'] else 's' if 'OStream' in m['t'] else '') for m in r['f']]
        ok = all('shared_ptr' in m['t'] for m in r['f'] if 'OStream' in m['t'] or 'OGroup' in m['t'])
        ctx.ob('mark', 'OArchive members', ok, 'include/OArchive.h', '' if ok else 'the archive does not share its stream with its groups', None)

def call_map(db):
    c = db.__dict__.get('_callmap')
    if c is None:
        c = {}
        for k in db.raw:
            f = db.fn(k)
            if f is None: continue
            s = set()
            for e, n in f.calls():
                if n.get('f'): s |= set(db.targets(n))
            c[k] = s
        db._callmap = c
    return c

def run(ctx):
    ctx.rule('close', 'the output file gives up its partition groups and its root before the archive is finished or given up', 3)
    ctx.rule('hold', 'a group that is not written yet keeps alive the groups that will refer to it, and the stream', 4)
    ctx.rule('freeze', 'a group is written before it goes away', 1)
    ctx.rule('order', 'a group is referred to, and lets go of its parents, only after its own contents are in the stream', 3)
    ctx.rule('data', 'a data piece is handed out only after its size and contents are in the stream', 2)
    ctx.rule('mark', 'the complete mark starts unset and is set only when the stream is given up or when closing', 4)
    closing(ctx); groups(ctx); marks(ctx)
