"""Both file formats answer through the same file interface."""
import re
from ..core import *
from .. import fail
from ..slices import Slice
from .C12 import retconst
ASSUME = ['the handler carries out the operation it is asked for (its own properties are C08, C09, C11, C15)']

OUTER = ('Field3D::Field3DFileBase', 'Field3D::Field3DInputFile', 'Field3D::Field3DOutputFile')
MORE = {'readLayers': {'readScalarLayers', 'readVectorLayers'}, 'writeLayer': {'writeLayer', 'writeScalarLayer', 'writeVectorLayer'}}
FREE = {'m_filename'}          # common to both formats

def hdf5_class(db, cls):
    q = re.sub(r'<.*', '', cls or '')
    return q == 'Field3D::Field3DFileHDF5Base' or 'Field3D::Field3DFileHDF5Base' in [re.sub(r'<.*', '', b) for b in db.bases(q)]

class Model:
    def __init__(self, db):
        self.db = db
        self.hand, self.state = set(), set()
        for c in OUTER:
            for m in db.recs[c]['f']:
                if is_smart(m['t']) and re.search(r'HDF5', m['t']): self.hand.add(m['n'])
                elif m['n'] not in FREE: self.state.add(m['n'])
        self.memo = {}
    def family(self, k):
        d = self.db.decl.get(k, {})
        return d.get('clsq', d.get('cls')) in OUTER
    def nz(self, f, i, n):
        if n['o'] == 'mem' and n['n'] in self.hand and is_smart(n['t']): return NZ
        return None
    def zero(self, f, i, n):
        if n['o'] == 'mem' and n['n'] in self.hand and is_smart(n['t']): return C(0)
        return None
    def touched(self, k, hook, seen=None):
        """first (fn, node) that looks at the state of the default format"""
        seen = seen if seen is not None else set()
        if k in seen: return None
        seen.add(k)
        f = self.db.fn(k)
        if f is None: return None
        ip = Const(f, hook=hook); ip.run()
        for e in sorted(ip.reached):
            n = f.nodes[e]
            if n['o'] == 'mem' and n['n'] in self.state and re.sub(r'::\w+$', '', n.get('m') or '') in OUTER and (path(f, e) or '').startswith('this.'): return f, e
            if n['o'] == 'call' and n.get('f') and self.family(n['f']):
                for t in self.db.targets(n):
                    r = self.touched(t, hook, seen)
                    if r: return r
        return None
    def delegates(self, k):
        """(ok, [(fn, node)] delegating calls, message)"""
        if k in self.memo: return self.memo[k]
        self.memo[k] = (False, [], 'recursion')
        f = self.db.fn(k)
        if f is None: return False, [], 'no body'
        calls = []
        hook = Assume(self.db, self.nz)
        def on(bid, j, e, env):
            n = f.nodes[e]
            if n['o'] != 'call' or not n.get('f'): return
            d = self.db.decl.get(n['f'], {})
            if hdf5_class(self.db, d.get('clsq', d.get('cls'))): env['$d'] = C(1); calls.append((f, e)); return
            if n['f'] == k or not (n.get('q') or '').startswith('Field3D::') or '::operator' in n['q']: return
            hands = any(re.search(r'Field3D\w*HDF5', t) for t in d.get('pt', ()))
            if hands or self.family(n['f']):
                for t in self.db.targets(n):
                    ok, cs, m = self.delegates(t)
                    if ok: env['$d'] = C(1); calls.append((f, e))
        ip = Const(f, hook=hook); ip.on_elem = on; ip.run()
        bad = [x for x in ip.exits if x[0] != 'throw' and x[3].get('$d') != C(1)]
        ok = bool(calls) and not bad
        r = ok, sorted(set((a.k, e) for a, e in calls)), 'can finish without asking the handler of the HDF5 format' if not ok else ''
        self.memo[k] = r
        return r

def final(M, k, e, depth=0):
    """handler calls a delegating call ends up in: [(fn, node)]"""
    db = M.db; f = db.fn(k); n = f.nodes[e]
    d = db.decl.get(n['f'], {})
    if hdf5_class(db, d.get('clsq', d.get('cls'))): return [(f, e)]
    out = []
    if depth < 5:
        for t in db.targets(n):
            for k2, e2 in M.memo.get(t, (0, (), 0))[1]: out += final(M, k2, e2, depth + 1)
    return out

def passes(M, f, e):
    """own parameters reach the delegating call, in order"""
    n = f.nodes[e]
    def leaf(g, j, m, out):
        if g.k == f.k and m['o'] == 'var' and f.vars[m['d']]['p'] >= 0: return 'p%d' % f.vars[m['d']]['p']
        return None
    pos = []
    for j, a in enumerate(n.get('a', ())):
        for lb, s, into in Slice(M.db, leaf, 1, callers=False).of(f, a):
            pos.append((j, int(lb[1:])))
    own = set(f.params)
    own = {p for p in own if 'HDF5' not in f.vars[f.params[p]]['t']}
    got = {p for j, p in pos}
    if own - got: return 'parameter %d is not passed on' % min(own - got)
    first = {}
    for j, p in pos: first[p] = min(first.get(p, 99), j)
    o = [p for p, j in sorted(first.items(), key=lambda x: x[1]) if p in own]
    if o != sorted(o) and len(set(first[p] for p in own)) == len(own): return 'the parameters are passed on in another order'
    return ''

def run(ctx):
    db = ctx.db
    ctx.rule('delegate', 'with an HDF5 handler in place, every public operation that would use the state of the default format asks the handler instead, on every path, and touches none of that state', 40)
    ctx.rule('same', 'the handler is asked for the same operation, on the same data type, with the caller\'s own arguments in order', 40)
    ctx.rule('result', 'what the handler answers is what the caller gets', 30)
    ctx.rule('choice', 'open() and create() hand the file over to the handler of its format and leave exactly one format in charge', 5)
    M = Model(db)
    def dims(f, i, n):
        if n['o'] == 'call' and (n.get('q') or '') == 'Field3D::FieldTraits::dataDims':
            g = db.fn(n['f']); v = retconst(db, g) if g else None
            if v and re.fullmatch(r'-?\d+', v): return C(int(v))
        return M.nz(f, i, n)
    for k, d in sorted(db.decl.items(), key=lambda x: x[0]):
        cls = d.get('clsq', d.get('cls'))
        if cls not in OUTER or d.get('acc') != 0 or d.get('static') or d.get('ctor') or d.get('dtor'): continue
        f = db.fn(k)
        if f is None: continue
        last = f.q.split('::')[-1]
        if last in ('open', 'create', 'operator=', 'metadataHasChanged'): continue
        uses = M.touched(k, Assume(db, M.zero))
        name = '%s%s' % (fail.fkey(f), '<%s>' % ','.join(d['ta']) if d.get('ta') else '')
        if uses is None and not counterpart(db, last):
            ctx.ob('delegate', name, True, '%s:%d' % (f.file, f.line), 'uses no state of either format', f); continue
        ok, calls, msg = M.delegates(k)
        loc = '%s:%d' % (f.file, f.line)
        if ok:
            t = M.touched(k, Assume(db, M.nz))
            if t: ok, msg, loc = False, 'looks at the state of the default format although the file is HDF5', t[0].loc(t[1])
        ctx.ob('delegate', name, ok, loc, msg, f)
        if not ok: continue
        ops = {(db.fn(fk).nodes[e].get('q') or '') for fk, e in calls}
        if len(ops) > 1 and all(any(o.startswith(c + '::') for c in OUTER) for o in ops): continue      # composed of other public operations
        want = MORE.get(last, {last})
        bad = ''
        vec = 'Vec3<' in ','.join(d.get('ta') or [])
        for fk, e in calls:
            bad = bad or passes(M, db.fn(fk), e)
            for g, x in final(M, fk, e):
                n = g.nodes[x]; nm = (n.get('q') or '').split('::')[-1]
                if nm in ('operator->', 'operator*'): continue
                if nm not in want: bad = bad or 'asks for %s instead' % nm
                bad = bad or ('' if g.k == fk else passes(M, g, x))
                ta = db.decl.get(n['f'], {}).get('ta') or []
                mine = d.get('ta') or []
                m1 = re.search(r'Vec3<(.*)>$', mine[0]).group(1) if mine and 'Vec3<' in mine[0] else (mine[0] if mine else None)
                if mine and ta:
                    t1 = ta[0]
                    if nm == last or last == 'writeLayer' and nm == 'writeLayer': okt = t1 == mine[0] or 'Vector' in last and 'Vec3<%s>' % mine[0] in t1
                    else: okt = t1 == m1 and (('Vector' in nm) == vec)
                    if not okt: bad = bad or 'asks %s<%s> for %s<%s>' % (nm, t1, last, mine[0])
                if nm == 'writeLayer' and len(n['a']) == 4:
                    ip = Const(g, hook=Assume(db, dims)); v = {}
                    def on(bid, j, el, env, v=v, ip=ip):
                        if el == x: v['v'] = ip.val(n['a'][2], env)
                    ip.on_elem = on; ip.run()
                    if v.get('v') is not None and v['v'] != C(1 if vec else 0): bad = bad or 'takes a %s layer for a %s one' % (('vector', 'scalar') if vec else ('scalar', 'vector'))
        ctx.ob('same', name, not bad, loc, bad, f)
        if f.decl.get('rt') != 'void':
            cs = {e for fk, e in calls if fk == k}
            def leaf(g, j, m, out):
                if g.k == k and j in cs: return 'answer'
                return None
            hook = Assume(db, M.nz)
            ip = Const(f, hook=hook); ip.run()
            badr = None
            for bid, j, e in f.elems():
                if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0 and bid in ip.entered and live(f, ip, bid, j):
                    if not any(lb == 'answer' for lb, s, into in Slice(db, leaf, 0, callers=False).of(f, e['n'])): badr = e
            ctx.ob('result', name, badr is None, '%s:%s' % (f.file, badr['l']) if badr else loc, 'returns something else than the answer of the handler', f)
    choice(ctx, M)

def counterpart(db, last):
    return any(d['q'].split('::')[-1] == last and hdf5_class(db, d.get('clsq', d.get('cls'))) and d.get('acc') == 0 for d in db.decl.values() if d.get('cls'))

def live(f, ip, bid, j):
    """the block ran up to element j"""
    for x in f.blocks[bid]['el'][:j]:
        if isinstance(x, int) and x not in ip.reached: return False
    return True

def choice(ctx, M):
    db = ctx.db
    for q, verb in (('Field3D::Field3DInputFile::open', 'open'), ('Field3D::Field3DOutputFile::create', 'create')):
        f = db.need(q)[0]
        loc = '%s:%d' % (f.file, f.line)
        own = sorted(M.hand)
        def node(hdf5):
            def nd(g, i, n):
                if n['o'] == 'call' and (n.get('q') or '').endswith('Archive::isValid'): return C(0 if hdf5 else 1)
                if n['o'] in ('gvar', 'load') and g.nodes[n['a'][0] if n['o'] == 'load' else i].get('q', '').endswith('ms_doOgawa') : return C(0 if hdf5 else 1)
                if n['o'] == 'gvar' and 'ms_doOgawa' in (n.get('n') or ''): return C(0 if hdf5 else 1)
                return None
            return nd
        for hdf5 in (False, True):
            asm = Assume(db, node(hdf5))
            ip = Const(f, hook=asm); ip.single_fault = True
            bad = []
            def on(bid, j, e, env):
                n = f.nodes[e]
                if n['o'] == 'call' and n.get('f'):
                    d = db.decl.get(n['f'], {})
                    if hdf5_class(db, d.get('clsq', d.get('cls'))) and n['q'].endswith('::' + verb):
                        env['$h'] = C(1)
                        m = passes(M, f, e)
                        if m: bad.append((e, m))
                if n['o'] == 'throw' and hdf5 is False: return 'stop'
                t, v = None, None
                if n['o'] == 'call' and 'obj' in n:
                    last = (n.get('q') or '').split('::')[-1]
                    if last == 'reset': t, v = n['obj'], (NZ if n['a'] else C(0))
                    elif n.get('op') == '=':
                        t = n['obj']; p2 = path(f, strip(f, n['a'][0])) or ''
                        v = env.get('$' + p2[5:]) if p2.startswith('this.') else ip.val(n['a'][0], env)
                if t is not None:
                    p = path(f, t) or ''
                    if p.startswith('this.') and p[5:] in M.hand:
                        env.pop('$' + p[5:], None)
                        if v is not None: env['$' + p[5:]] = v
            ip.on_elem = on; ip.run()
            msg = bad[0][1] if bad else ''
            succ = 0
            for kd, v, l, env in ip.exits:
                if kd == 'throw' or v == C(0): continue
                hs = [env.get('$' + m) for m in own]
                if hdf5:
                    if env.get('$h') != C(1) and v == C(1): msg = msg or 'can report success (line %s) for an HDF5 file without asking its handler to %s it' % (l, verb)
                else:
                    succ += 1
                    if any(h != C(0) for h in hs): msg = msg or 'leaves a handler of an earlier HDF5 file in charge of a file of the default format (line %s)' % l
            if hdf5:
                if not any(x[3].get('$h') == C(1) for x in ip.exits): msg = msg or 'never asks the handler of the HDF5 format'
                for kd, v, l, env in ip.exits:
                    if env.get('$h') == C(1) and kd != 'throw' and v != C(0) and any(env.get('$' + m) not in (NZ,) for m in own): msg = msg or 'does not put the handler in charge (line %s)' % l
            elif not succ: msg = msg or 'never succeeds'
            ctx.ob('choice', '%s %s' % (verb, 'HDF5' if hdf5 else 'default'), not msg, loc, msg, f)
        # the handler is in charge before it is asked, and only a new one is used
        calls = [(i, n) for i, n in f.calls() if n['o'] == 'call' and n.get('f') and hdf5_class(db, db.decl[n['f']].get('clsq', db.decl[n['f']].get('cls'))) and n['q'].endswith('::' + verb)]
        ctx.ob('choice', verb + ' hands over', bool(calls), loc, 'never asks the handler of the HDF5 format', f)
