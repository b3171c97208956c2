"""Every HDF5 handle obtained is closed exactly once, on every way out."""
import re
from ..core import *
from ..inline import inline
from ..facts import AnalysisBroken
from .C23 import call_map, closure
from .C29 import Escape, leaves
ASSUME = ['a close call of HDF5 that reports failure leaves nothing to be closed again by the library on other paths',
          'memory allocation does not fail', 'a smart pointer destroys what it owns once']

ACQ = re.compile(r'^H5([AFGDSTPO])(open|create|copy|reopen|get_space|get_type|get_native_type|get_create_plist|get_access_plist|get_super|get_member_type|retrieve_\w+|dereference|decode)(_\w+)?\d?$')
CLOSE = re.compile(r'^H5([AFGDSTPO])close$')
HID = 'hid_t'
ID = C(770077007700)          # the handle being followed
OLD = C(660066006600)         # a handle the object already holds

def kind(q):
    m = ACQ.match(q or '')
    if not m or q.startswith('H5Pcopy_prop') or q.startswith('H5Ocopy'): return None
    if m.group(2) == 'get_space': return 'S'
    if m.group(2) in ('get_type', 'get_native_type', 'get_super', 'get_member_type'): return 'T'
    if 'plist' in m.group(2): return 'P'
    if m.group(1) == 'T' and m.group(2) == 'copy': return 'T'
    return m.group(1)

def isacq(n): return n['o'] == 'call' and 'obj' not in n and kind(n.get('q'))
def isclose(n):
    m = CLOSE.match(n.get('q') or '') if n['o'] == 'call' and 'obj' not in n else None
    return m.group(1) if m else None

class Keep(Const):
    """a call does not change a handle member unless something it reaches assigns to one of that name"""
    def effects(self, e, env):
        n = self.f.nodes[e]
        kept = {}
        if n['o'] in ('call', 'ctor') and n.get('f'):
            for p, v in env.items():
                if p.startswith('this.') and p.count('.') == 1 and v in (ID, OLD) and not any(self.H.writes(t, p[5:]) for t in self.H.db.targets(n)): kept[p] = v
        Const.effects(self, e, env)
        env.update(kept)

class Handles:
    def __init__(self, ctx):
        self.ctx = ctx; self.db = db = ctx.db
        # functions that obtain or close raw handles
        self.raw = set()
        for k in db.raw:
            if any(isacq(n) or isclose(n) for e, n in db.fn(k).calls()): self.raw.add(k)
        if not self.raw: raise AnalysisBroken('no HDF5 handle is obtained anywhere')
        self.cm = call_map(db)
        self.rev = {}
        for a, l in self.cm.items():
            for b in l: self.rev.setdefault(b, set()).add(a)
        self.esc = Escape(db)
        self.members = {}     # class -> {member: kind}
        self.closed = {}      # (fn key of body, node, inline root) judged close sites

    def writes(self, t, m):
        c = self.__dict__.setdefault('_wr', {})
        if m not in c:
            hit = set()
            for k in self.db.raw:
                f = self.db.fn(k)
                for n in f.nodes:
                    if n['o'] == 'asn':
                        x = f.nodes[strip(f, n['a'][0])]
                        if x['o'] == 'mem' and x['n'] == m: hit.add(k); break
            ch = True
            while ch:
                ch = False
                for a, l in self.cm.items():
                    if a not in hit and l & hit: hit.add(a); ch = True
            c[m] = hit
        return t in c[m]
    def owner(self, k):
        """class that keeps a handle this function works on"""
        c = self.db.decl[k].get('cls')
        return c
    def hids(self, c):
        """handle members of a class and its bases"""
        return {m['n'] for b in [c] + list(self.db.bases(c)) for m in (self.db.recs.get(b) or {'f': []})['f'] if self.ishid(m['t'])}
    @staticmethod
    def ishid(t): return t in ('hid_t', 'long', 'int64_t', 'long long') 

    def pick(self, root):
        db = self.db; c0 = db.decl[root].get('cls')
        fam = {c0} | set(db.bases(c0)) if c0 else set()
        def pick(f, n, t):
            if t not in db.raw or t == root: return False
            d = db.decl[t]
            if d.get('ctor') or d.get('dtor'): return False
            if d.get('cls') and d['cls'] in fam: return True
            # helpers that obtain or close handles for their callers
            return t in self.raw and not (d.get('cls') and self.hids(d['cls'])) and self.passes(t)
        return pick
    def passes(self, t):
        """hands a handle in or out raw"""
        d = self.db.decl[t]
        return bool(self.transfers(t))
    def transfers(self, t):
        c = self.__dict__.setdefault('_tr', {})
        if t in c: return c[t]
        c[t] = set()
        f = self.db.fn(t)
        out = set()
        if any(isacq(n) for e, n in f.calls()):
            for b, i, e in f.elems():
                if isinstance(e, int) and isacq(f.nodes[e]):
                    for st in self.fates(f, b, i, e, ID)[0]: out.add(st) if st in ('returned', 'out') else None
        for e, n in f.calls():
            if isclose(n):
                a = f.nodes[strip(f, n['a'][0])]
                if a['o'] == 'var' and f.vars[a['d']].get('p', -1) >= 0: out.add('closes')
        c[t] = out
        return out

    def fates(self, f, b, i, e, val, env0=None):
        """follow the handle obtained at element e: ({how it ends}, [(loc node, message)])"""
        K = kind(f.nodes[e].get('q'))
        return self.follow(f, (b, i), {}, {e: val}, val, K, site=e)

    def follow(self, f, start, env0, assume, val, K, site=None, member=None):
        probs = []; ends = set(); esc = []
        db = self.db
        def hook(ip, x, n, env):
            if isclose(n): return C(0)
            if x == site: return val
            if isacq(n): return None
            return None
        def on(bid, j, x, env):
            n = f.nodes[x]
            k = isclose(n)
            st = env.get('$h')
            if k:
                v = ip.val(n['a'][0], env)
                if v == val:
                    self.closed.setdefault(f.src(x) if hasattr(f, 'src') else (f.k, x), set()).add('own')
                    if st == C(0): probs.append((x, 'closes a handle that is closed already'))
                    elif k != K: probs.append((x, 'closes a handle with H5%sclose, which is not for this kind' % k))
                    env['$h'] = C(0)
            elif x == site and st == C(1): probs.append((x, 'obtains another handle while the one obtained before is still open'))
            if x == site: env['$h'] = C(1)
            if st == C(1) and n['o'] in ('call', 'ctor', 'new') and not isclose(n): esc.append((x, {p for p, v in env.items() if v == val and '$' not in p}))
        ip = Keep(f, hook=hook); ip.H = self; ip.on_elem = on
        # ways with the handle open and closed are kept apart
        ip.split = ('$h',) + tuple(x for x in list(env0) + ([member] if member else []) if x.startswith('this.'))
        env = dict(env0)
        if site is None: env['$h'] = C(1)
        ip.run(start, env, assume)
        for kd, v, l, env in ip.exits:
            st = env.get('$h')
            if st is None and site is not None and '$h' not in env: st = None
            where = {p for p, x in env.items() if x == val and '$' not in p and not re.match(r'n\d+$', p)}
            mem = [p for p in where if p.startswith('this.')]
            outp = [p for p in where if self.outparam(f, p)]
            if st == C(0):
                if mem: ends.add('stale'); probs.append((None, 'keeps the number of a handle it has closed in %s' % mem[0], 'stale', mem[0]))
                ends.add('closed'); continue
            if kd == 'ret' and v == val: ends.add('returned'); continue
            if mem: ends.add('kept:' + mem[0][5:]); 
            elif outp and kd != 'throw': ends.add('out')
            elif kd == 'noreturn': pass
            else:
                ends.add('lost')
                probs.append((None, 'can end (line %s) with the handle still open' % l if st == C(1) else 'can end (line %s) with the handle open on some way' % l))
            if mem and kd == 'throw' and f.decl.get('ctor') : probs.append((None, 'the constructor can fail (line %s) with the handle still open' % l))
        return ends, probs, esc, ip

    def outparam(self, f, p):
        m = re.match(r'v(\d+)$', p)
        if not m: return False
        v = f.vars[int(m.group(1))]
        return v.get('p', -1) >= 0 and ('&' in v['t'] or v.get('ref'))

def run(ctx):
    db = ctx.db
    ctx.rule('closed', 'a handle obtained is closed once with the close of its kind, or handed to an owner, on every way out', 20)
    ctx.rule('escape', 'no exception passes a function that still has a handle to close', 10)
    ctx.rule('foreign', 'what is closed is a handle the same function or object obtained', 10)
    ctx.rule('owner', 'an object that keeps a handle closes it when it goes away', 10)
    ctx.rule('replace', 'an object does not lose the handle it keeps by taking another or forgetting it', 10)
    ctx.rule('start', 'an object that will keep a handle starts without one', 10)
    ctx.rule('copy', 'an object that closes its handle is not copied together with it', 1)
    ctx.rule('heap', 'an owner made on the heap belongs to a smart pointer', 0)
    H = Handles(ctx)
    roots = []
    for k in sorted(H.raw):
        d = db.decl[k]
        # a helper of a class, or one that takes or gives raw handles, is judged where it is called
        used = [c for c in H.rev.get(k, ()) if c != k]
        roots.append(k)
    # callers of helpers that hand handles out, or keep them in members, are roots too
    more = set(roots); ch = True
    while ch:
        ch = False
        for k in list(more):
            d = db.decl[k]
            if d.get('ctor') or d.get('dtor'): continue
            tr = H.transfers(k)
            for c in H.rev.get(k, ()):
                if c in more or c not in db.raw: continue
                same = d.get('cls') and (db.decl[c].get('cls') == d['cls'] or d['cls'] in db.bases(db.decl[c].get('cls') or ''))
                if tr or same and not db.decl[c].get('implicit'): more.add(c); ch = True
    keeps = {}
    seenclose = {}
    for k in sorted(more):
        d = db.decl[k]
        f = inline(db, k, H.pick(k))
        sites = [(b, i, e) for b, i, e in f.elems() if isinstance(e, int) and isacq(f.nodes[e])]
        inner = bool(H.transfers(k)) and any(c != k for c in H.rev.get(k, ()))
        for n, (b, i, e) in enumerate(sorted(sites, key=lambda x: x[2])):
            ends, probs, esc, ip = H.follow(f, (b, i), {}, None, ID, kind(f.nodes[e]['q']), site=e)
            for x in ends:
                if x.startswith('kept:'): keeps.setdefault(d['cls'], {}).setdefault(x[5:], set()).add(kind(f.nodes[e]['q']))
            if inner and ends <= {'returned', 'out', 'closed', 'lost'} and ends & {'returned', 'out'}: pass
            key = '%s#%s%d' % (f.name, f.nodes[e]['q'], n)
            p = probs[0] if probs else None
            ctx.ob('closed', key, not probs, f.loc(p[0] if p and p[0] is not None else e), p[1] if p else '', f)
            # exceptions
            bad = None
            for x, where in esc:
                if any(w.startswith('this.') for w in where): 
                    if not d.get('ctor'): continue
                src, y = H.esc.sources(f, x, (k,))
                for t, o in src.items():
                    if t != 'rethrow' and leaves(f, y, t): bad = (x, t, o)
            ctx.ob('escape', key, bad is None, f.loc(bad[0]) if bad else f.loc(e), '%s raised at %s passes here while the handle is open' % (bad[1], bad[2]) if bad else '', f)
    # owners
    owners = {}
    for c, ms in sorted(keeps.items()):
        for m, ks in ms.items():
            home = next((b for b in [c] + list(db.bases(c)) if any(x['n'] == m for x in (db.recs.get(b) or {'f': []})['f'])), c)
            owners.setdefault((home, m), [set(), {}])
            owners[(home, m)][0].add(c); owners[(home, m)][1].setdefault(c, set()).update(ks)
    for (home, m), (cs, kinds_) in sorted(owners.items()):
        for c in sorted(cs):
            K = sorted(kinds_[c])[0]; ok = len(kinds_[c]) == 1
            chain = [c] + list(db.bases(c))
            env = {'this.' + m: ID}; val = None; done = False; probs = []; st = C(1); loc = ''
            for b in chain:
                dk = [k for k, d in db.decl.items() if d.get('dtor') and d.get('cls') == b and k in db.raw]
                if not dk: continue
                f = inline(db, dk[0], H.pick(dk[0])); loc = loc or f.loc()
                ends, pr, esc, ip = H.follow(f, None, {'this.' + m: ID, '$h': st}, None, ID, K)
                # destructors don't return early with the handle: every exit must agree
                sts = {x[3].get('$h') for x in ip.exits}
                vals = {x[3].get('this.' + m) for x in ip.exits}
                probs += [p for p in pr if p[1].startswith('closes')]
                if sts == {C(0)}:
                    st = C(0); done = True
                    if vals == {ID} or None in vals: pass
                    else: break
                elif C(0) in sts or None in sts: probs.append((None, 'closes its handle on some ways only'))
            msg = probs[0][1] if probs else 'goes away with its handle open' if not done else 'keeps handles of different kinds' if not ok else ''
            ctx.ob('owner', '%s::%s in %s' % (home.split('::')[-1], m, c.split('::', 1)[-1]), not msg, loc, msg, None)
        fam = {c for c in db.recs if c == home or home in db.bases(c)} | {home}
        for k in sorted(db.raw):
            d = db.decl[k]
            if d.get('cls') not in fam or d.get('dtor') or d.get('static'): continue
            f0 = db.fn(k)
            if d.get('ctor'):
                if d['cls'] != home or d.get('implicit') and d.get('copy'): continue
                f = inline(db, k, H.pick(k))
                sites = {e for b, i, e in f.elems() if isinstance(e, int) and isacq(f.nodes[e])}
                ip = Const(f, hook=lambda ip, x, n, env: C(-1) if x in sites else None)
                ip.run()
                bad = [l for kd, v, l, env in ip.exits if kd != 'throw' and not (env.get('this.' + m, (None,))[0] == 'c' and env['this.' + m][1] < 0)]
                ctx.ob('start', '%s %s' % (f.name, ','.join(d.get('pt', ()))[:40]), not bad, f0.loc(), '%s is not set' % m if bad else '', f0)
                continue
            if not touches(H, db, k, home, m): continue
            if d.get('acc') and any(db.decl[x].get('cls') in fam for x in H.rev.get(k, ()) if x != k): continue
            f = inline(db, k, H.pick(k))
            K = next((sorted(v)[0] for c2, v in kinds_.items() if c2 == d['cls'] or d['cls'] in db.bases(c2) or c2 in db.bases(d['cls'])), '?')
            ends, probs, esc, ip = H.follow(f, None, {'this.' + m: ID}, None, ID, K)
            msg = None
            for p in probs:
                if p[1].startswith('closes'): msg = p
            for kd, v, l, env in ip.exits:
                s = env.get('$h'); x = env.get('this.' + m)
                if s == C(1) and x != ID: msg = msg or (None, 'loses the handle kept in %s without closing it (line %s)' % (m, l))
                elif s == C(0) and x == ID: msg = msg or (None, 'keeps the number of a handle it has closed in %s (line %s)' % (m, l))
                elif s is None: msg = msg or (None, 'can lose the handle kept in %s, or keep the number of a closed one (line %s)' % (m, l))
            ctx.ob('replace', f.name + ('' if len(d.get('pt', ())) < 2 else ' %d' % len(d['pt'])), msg is None, f.loc(msg[0]) if msg and msg[0] is not None else f.loc(), msg[1] if msg else '', f)
    # closes of anything else
    own = {}
    for (home, m), (cs, ks) in owners.items(): own.setdefault(m, set()).update({home} | cs)
    for k in sorted(H.raw):
        f = db.fn(k); d = db.decl[k]
        cl = [e for e, n in f.calls() if isclose(n)]
        for n, e in enumerate(cl):
            if isacq(f.nodes[strip(f, f.nodes[e]['a'][0])]): continue
            ok = foreign(H, db, f, e, owners)
            ctx.ob('foreign', '%s#%d' % (f.name, n), ok, f.loc(e), '' if ok else 'closes a handle that something else will close too', f)
    copies(ctx, db, owners); heap(ctx, db, owners)
    for k in H.esc.memo: ctx.fns.add(k)

def touches(H, db, k, home, m, seen=None):
    """mentions the member in an assignment, or closes something, here or in helpers of the class"""
    f = db.fn(k)
    for b, i, e in f.elems():
        if isinstance(e, int):
            n = f.nodes[e]
            if n['o'] == 'asn':
                t = f.nodes[strip(f, n['a'][0])]
                if t['o'] == 'mem' and t['n'] == m: return True
            if isclose(n) or isacq(n): return True
    seen = seen or {k}
    for t in H.cm.get(k, ()):
        if t in seen or t not in db.raw: continue
        seen.add(t)
        c = db.decl[t].get('cls'); c0 = db.decl[k].get('cls')
        if c and not db.decl[t].get('ctor') and not db.decl[t].get('dtor') and (c == c0 or c in db.bases(c0 or '')) and touches(H, db, t, home, m, seen): return True
    return False

def foreign(H, db, f, e, owners):
    """the argument of this close is a member handle of the object, a parameter of a helper
    judged at its callers, or a local that only ever holds handles obtained here"""
    a = strip(f, f.nodes[e]['a'][0])
    n = f.nodes[a]
    if n['o'] == 'mem':
        return f.nodes[strip(f, n['a'][0])]['o'] == 'this' and any(m == n['n'] and (home == f.cls or home in db.bases(f.cls or '') or f.cls in cs) for (home, m), (cs, ks) in owners.items())
    if n['o'] == 'var':
        v = f.vars[n['d']]
        if v.get('p', -1) >= 0: return 'closes' in H.transfers(f.k) and bool(H.rev.get(f.k))
        from .C24 import vdefs
        ds = vdefs(f).get(n['d'], [])
        def good(x):
            m = f.nodes[strip(f, x)]
            if isacq(m): return True
            if 'v' in m and isinstance(m['v'], int) and m['v'] < 0: return True
            if m['o'] == 'un' and m['op'] == '-': return True
            if m['o'] == 'cond': return good(m['a'][1]) and good(m['a'][2])
            if m['o'] == 'call' and m.get('f') and any('returned' in H.transfers(t) for t in db.targets(m) if t in db.raw): return True
            if m['o'] == 'var' and m['d'] != n['d']: return all(good(y) for y in vdefs(f).get(m['d'], [])) and bool(vdefs(f).get(m['d']))
            return False
        outs = any('out' in H.transfers(t) for e2, c in f.calls() for t in (db.targets(c) if c.get('f') else ()) if t in db.raw and any(f.nodes[strip(f, x)].get('d') == n['d'] for x in c.get('a', ())))
        return (bool(ds) or outs) and all(good(x) for x in ds)
    return False

def copies(ctx, db, owners):
    cls = {h for (h, m) in owners} | {c for (h, m), (cs, ks) in owners.items() for c in cs}
    bad = []
    cnt = 0
    for k in db.raw:
        f = db.fn(k)
        for e, n in f.calls():
            t = n.get('f')
            if not t or t not in db.decl: continue
            d = db.decl[t]
            if d.get('cls') not in cls: continue
            cnt += 1
            if d.get('implicit') or d.get('defaulted'):
                if d.get('ctor') and d.get('copy') or d['q'].endswith('operator='):
                    if f.decl.get('implicit') and f.cls in cls: continue
                    bad.append((f, e, d))
    ctx.ob('copy', 'all uses', not bad, bad[0][0].loc(bad[0][1]) if bad else '', 'copies a %s together with the handle it closes' % bad[0][2]['cls'].split('::')[-1] if bad else '', bad[0][0] if bad else None)

def heap(ctx, db, owners):
    cls = {h for (h, m) in owners} | {c for (h, m), (cs, ks) in owners.items() for c in cs}
    for k in sorted(db.raw):
        f = db.fn(k); par = None
        for i, n in enumerate(f.nodes):
            if n['o'] != 'new': continue
            t = re.sub(r'\s*\*$', '', n['t'])
            if t not in cls or not re.search(r'Hdf5Util::H5', t): continue
            if par is None:
                par = {}
                for j, m in enumerate(f.nodes):
                    for x in kids(m): par.setdefault(x, j)
            j = par.get(i)
            while j is not None and f.nodes[j]['o'] in ('cast', 'load'): j = par.get(j)
            p = f.nodes[j] if j is not None else None
            ok = p is not None and (p['o'] == 'ctor' and is_smart(p['t']) or p['o'] == 'call' and 'obj' in p and (p.get('q') or '').split('::')[-1] in ('reset',) and is_smart(f.nodes[p['obj']]['t']))
            ctx.ob('heap', '%s %s' % (f.name, t.split('::')[-1]), ok, f.loc(i), '' if ok else 'an owner of a handle is made that nothing destroys for certain', f)
