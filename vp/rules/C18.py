"""C18: derived state is recomputed after every change of what it derives from."""
import re
from ..core import *
from ..facts import kids
from .C15 import natloops

ASSUME = ['copying an object copies base and derived members alike (C20); an operation that ends in an exception promises nothing here',
          'the formula of a recomputed value is not judged, only that it is computed after the change and from the changed members',
          'a field always has a mapping; a null mapping passed to setMapping changes nothing',
          'the contents of voxel buffers are not derived state, their sizes are']

XYZ = lambda m: [m + '.' + c for c in 'xyz']
CURVES = ('m_ssToWsCurve', 'm_lpsToWsCurve', 'm_csToWsCurve', 'm_nearCurve', 'm_farCurve')
EXT = 'mapping extents'
# class -> derived member -> (members it depends on, kind): 'val' assigned, 'size' resized, 'fill' emptied, then filled by a loop
SPEC = {
    'MatrixFieldMapping': dict(
        {d: (['m_lsToWsCurve'], 'val') for d in ('m_isTimeVarying', 'm_lsToWs', 'm_wsToLs')},
        **dict({d: (['m_lsToWsCurve', 'm_origin', 'm_res'], 'val') for d in ['m_vsToWs', 'm_wsToVs'] + XYZ('m_wsVoxelSize')},
               m_vsToWsCurve=(['m_lsToWsCurve', 'm_origin', 'm_res'], 'fill'))),
    'FrustumFieldMapping': {'m_wsVoxelSize': (['m_lpsToWsCurve', 'm_nearCurve', 'm_farCurve', 'm_zDistribution', 'm_origin', 'm_res'], 'fill')},
    'DenseField': {'m_memSize': (['m_dataWindow'], 'val'), 'm_memSizeXY': (['m_dataWindow'], 'val'), 'm_data': (['m_dataWindow'], 'size')},
    'MACField': dict({'m_%sSize' % c: (['m_dataWindow'], 'val') for c in 'uvw'}, **dict(
        {'m_%sSizeXY' % c: (['m_dataWindow'], 'val') for c in 'uvw'}, **{'m_%s' % c: (['m_dataWindow'], 'size') for c in 'uvw'})),
    'SparseField': {d: (['m_dataWindow', 'm_blockOrder'], 'val') for d in ('m_blockRes', 'm_blockXYSize', 'm_numBlocks', 'm_blocks')},
}
MAPEXT = {EXT: (['m_extents', 'm_mapping'], 'val')}

def bare(cls): return re.sub(r'<.*', '', cls.split('::')[-1]) if '<' not in cls else re.sub(r'<.*', '', cls).split('::')[-1]
def last(n): return (n.get('q') or '').split('::')[-1]
def head(p): return p.split('.')[0]
def hits(a, b): return a == b or a.startswith(b + '.') or b.startswith(a + '.')

class Machine:
    def __init__(self, db, cls, spec):
        self.db, self.cls, self.spec = db, cls, spec
        self.bases_ = {b for n, _ in spec.values() for b in n}
        self.chain = [cls] + db.bases(cls)
        self.rs = {}; self.busy = set(); self.dp = {}; self.memo = {}
        self.made = set(); self.wrote = set(); self.miss = {}; self.active = set()

    # -- what an expression reads
    def mp(self, f, i):
        p = path(f, i)
        if p is None: return None
        m = re.match(r'^[&*]*this\*?\.(.*)$', p)
        return m.group(1).replace('*', '') if m else None

    def resolve(self, n):
        k = n.get('f')
        if not k: return None
        if not n.get('virt'): return k
        c = [k] + self.db.overriders(k)
        for x in self.chain:
            for y in c:
                if self.db.decl.get(y, {}).get('cls') == x: return y if y in self.db.raw else None
        return None

    def onthis(self, f, n):
        if 'obj' not in n: return False
        p = path(f, n['obj'])
        return p is not None and p.lstrip('&*').rstrip('*') == 'this'

    def atoms(self, f, i, out=None):
        """('m', member path) and ('v', local) read below i; methods of this object by what they read"""
        if out is None: out = set()
        if i is None or i < 0: return out
        n = f.nodes[i]; o = n['o']
        if o == 'mem':
            p = self.mp(f, i)
            if p: out.add(('m', p)); return out
        if o == 'var':
            out.add(('v', n['d'])); return out
        if o in ('call', 'ctor') and (self.onthis(f, n) or any(f.nodes[strip(f, a)]['o'] == 'this' for a in n.get('a', ()) if a >= 0)):
            k = self.resolve(n)
            if k: out |= {('m', m) for m in self.reads(k)}
        for a in kids(n): self.atoms(f, a, out)
        return out

    def reads(self, k):
        if k in self.rs: return self.rs[k]
        if k in self.busy: return set()
        f = self.db.fn(k)
        if f is None: return set()
        self.busy.add(k)
        r = set()
        for _, _, e in f.elems():
            if isinstance(e, int):
                n = f.nodes[e]
                if n['o'] == 'mem':
                    p = self.mp(f, e)
                    if p: r.add(p)
                elif n['o'] == 'call' and self.onthis(f, n):
                    t = self.resolve(n)
                    if t: r |= self.reads(t)
        self.busy.discard(k)
        self.rs[k] = r
        return r

    def outs(self, f, n):
        """arguments a call may store into"""
        pts = self.db.decl.get(n.get('f') or '', {}).get('pt', [])
        for j, a in enumerate(n.get('a', ())):
            pt = pts[j] if j < len(pts) else ''
            if pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const '): yield a

    def deps(self, f):
        """local -> members and locals its value comes from"""
        if f.k in self.dp: return self.dp[f.k]
        d = {}
        for _, _, e in f.elems():
            if isinstance(e, dict):
                if e['e'] == 'decl' and e['n'] >= 0: d.setdefault(e['d'], set()).update(self.atoms(f, e['n']))
                continue
            n = f.nodes[e]
            t, v = None, []
            if n['o'] == 'asn': t, v = n['a'][0], n['a'][1:]
            elif n['o'] == 'call' and n.get('op') in ('=', '+=', '-=', '*=', '/=') and 'obj' in n: t, v = n['obj'], n['a']
            if t is not None:
                r = self.rootvar(f, t)
                if r is not None:
                    for x in v: d.setdefault(r, set()).update(self.atoms(f, x))
            if n['o'] in ('call', 'ctor'):
                for a in self.outs(f, n):
                    r = self.rootvar(f, a)
                    if r is not None: d.setdefault(r, set()).update(self.atoms(f, e) - {('v', r)})
                if n['o'] == 'call' and 'obj' in n and n.get('f') and not self.db.decl.get(n['f'], {}).get('const') and not n.get('op'):
                    r = self.rootvar(f, n['obj'])
                    if r is not None: d.setdefault(r, set()).update(self.atoms(f, e) - {('v', r)})
        for _ in range(8):
            ch = False
            for v in d:
                for a in list(d[v]):
                    if a[0] == 'v' and a[1] in d and not d[a[1]] <= d[v]: d[v] |= d[a[1]]; ch = True
            if not ch: break
        self.dp[f.k] = d
        return d

    def rootvar(self, f, i):
        while i is not None and i >= 0:
            n = f.nodes[i]
            if n['o'] == 'var': return n['d']
            if n['o'] in ('mem', 'idx', 'cast', 'load', 'un'): i = n['a'][0]
            elif n['o'] == 'call' and n.get('op') in ('[]', '*', '->') and 'obj' in n: i = n['obj']
            else: return None

    def members(self, f, atoms, pm):
        r = set()
        for a in atoms:
            if a[0] == 'm': r.add(a[1])
            else:
                for x in self.deps(f).get(a[1], ()):
                    if x[0] == 'm': r.add(x[1])
                    elif x[1] in pm: r |= pm[x[1]]
                if a[1] in pm: r |= pm[a[1]]
        return r

    def enough(self, d, rd):
        have = set()
        for m in rd:
            have.add(head(m))
            for x in self.spec:
                if hits(m, x): have |= set(self.spec[x][0])
        have |= rd
        return [b for b in self.spec[d][0] if b not in have]

    def old(self, atoms, st):
        stale, sized, taint = st[0], st[1], st[2]
        return any((a[0] == 'm' and any(hits(a[1], s) for s in stale)) or (a[0] == 'v' and a[1] in taint) for a in atoms)

    # -- events; a state is (stale members, emptied members, locals with old values, locals with mapping extents set, curve operations)
    def base_write(self, f, st, b, e):
        stale, sized, taint, ext, ops = st
        b = head(b)
        if b not in self.bases_: return st
        self.wrote.add(b); self.active.add(self.root)
        ds = {d for d in self.spec if b in self.spec[d][0]}
        t = {v for v, s in self.deps(f).items() if ('m', b) in s and not f.vars[v].get('ref')}
        return (stale | ds, sized - ds, taint | t, ext, ops)

    def give(self, f, st, d, atoms, e, pm, how):
        stale, sized, taint, ext, ops = st
        if self.old(atoms - {('m', d)}, st) and d in stale:
            self.miss.setdefault(d, (f, e, 'is computed from values that are out of date')); return st
        lack = self.enough(d, self.members(f, atoms, pm))
        if lack:
            self.miss.setdefault(d, (f, e, 'is computed without regard to ' + ', '.join(lack))); return st
        self.made.add(d)
        return (stale - {d}, sized, taint, ext, ops)

    def write(self, f, st, target, vals, e, pm, plain=True):
        t = self.mp(f, target)
        x = f.nodes[strip(f, target)]
        if t is None or x['o'] == 'idx' or x['o'] == 'call' and x.get('op') == '[]':
            o_, j = (x['a'][0], x['a'][1]) if x['o'] == 'idx' else (x['obj'], x['a'][0]) if x['o'] == 'call' and x.get('op') == '[]' and x.get('a') else (None, None)
            if o_ is not None:
                c, m = f.nodes[strip(f, j)].get('v'), self.mp(f, o_)
                t = m + '.' + 'xyz'[c] if m and c in (0, 1, 2) and isinstance(c, int) else None
        at = set()
        for v in vals: self.atoms(f, v, at)
        if t is None:
            r = f.nodes[strip(f, target)]
            if r['o'] == 'var' and plain:
                d = r['d']
                stale, sized, taint, ext, ops = st
                return (stale, sized, taint | {d} if self.old(at, st) else taint - {d}, ext, ops)
            return st
        if len(vals) == 1 and plain:
            v = f.nodes[self.peel(f, vals[0])]
            if v['o'] == 'mem' and v['n'] == t.split('.')[-1] and self.mp(f, self.peel(f, vals[0])) != t: return st
        if plain:
            for d in self.spec:
                if d != EXT and (self.spec[d][1] == 'val' and (d == t or d.startswith(t + '.')) or
                                 self.spec[d][1] != 'val' and d == t and any(a[0] == 'v' for a in at)): st = self.give(f, st, d, at, e, pm, 'val')
        b = head(t)
        st = self.base_write(f, st, b, e)
        if b == 'm_mapping' and EXT in self.spec:
            r = self.rootvar(f, vals[0]) if vals else None
            if r is None and vals: r = next((a[1] for a in at if a[0] == 'v' and a[1] in st[3]), None)
            if r is not None and r in st[3]: st = (st[0] - {EXT},) + st[1:]
        return st

    def peel(self, f, i):
        while True:
            i = strip(f, i); n = f.nodes[i]
            if n['o'] == 'ctor' and len(n['a']) == 1: i = n['a'][0]; continue
            return i

    def fills(self, f):
        """loop header -> [(member, atoms, element)] filled in every pass of a loop over all elements"""
        r = f.__dict__.setdefault('_c18', {}).get(self.cls)
        if r is not None: return r
        r = {}
        for h, body in natloops(f).items():
            per = {}
            for b, i, e in f.elems():
                if b not in body or not isinstance(e, int): continue
                n = f.nodes[e]; d, at = None, set()
                if n['o'] == 'call' and last(n) in ('addSample', 'push_back', 'insert', 'emplace_back') and 'obj' in n:
                    d = self.mp(f, n['obj'])
                    for a in n['a']: self.atoms(f, a, at)
                elif n['o'] == 'asn' or n['o'] == 'call' and n.get('op') == '=' and 'obj' in n:
                    t = f.nodes[strip(f, n['a'][0] if n['o'] == 'asn' else n['obj'])]
                    if t['o'] == 'idx': d = self.mp(f, t['a'][0])
                    elif t['o'] == 'call' and t.get('op') == '[]' or t['o'] == 'call' and last(t) == 'at': d = self.mp(f, t['obj'])
                    self.atoms(f, n['a'][-1], at)
                if d in self.spec and self.spec[d][1] == 'fill': per.setdefault(d, []).append((b, e, at))
                elif d and n['o'] != 'call' or n.get('op') == '=':
                    for x in self.spec:
                        if d and hits(x, d) and x.startswith(d) and self.spec[x][1] == 'val': per.setdefault(x, []).append((b, e, at))
            outs = [(b, s) for b in body for s in f.blocks[b]['su'] if s is not None and s >= 0 and s not in body]
            if len({b for b, s in outs}) != 1: continue
            cb = outs[0][0]
            c = (f.blocks[cb].get('tm') or {}).get('c')
            for d, w in per.items():
                if self.spec[d][1] == 'val' and not self.three(f, c): continue
                wb = {b for b, _, _ in w}
                seen, todo = set(), [s for s in f.blocks[h]['su'] if s in body] if h not in wb else []
                while todo:
                    x = todo.pop()
                    if x in wb or x in seen or x is None: continue
                    seen.add(x)
                    todo += [s for s in f.blocks[x]['su'] if s in body]
                if h in seen: continue
                at = set().union(*(a for _, _, a in w))
                if c is not None: self.atoms(f, c, at)
                r.setdefault(h, []).append((d, at, w[0][1]))
        f._c18[self.cls] = r
        return r

    def three(self, f, c):
        if c is None: return False
        n = f.nodes[strip(f, c)]
        return n['o'] == 'bin' and n['op'] in ('<', '!=', '<=') and f.nodes[strip(f, n['a'][1])].get('v') == (2 if n['op'] == '<=' else 3)

    def elem(self, f, st, e, pm, depth):
        if isinstance(e, dict):
            if e['e'] == 'decl':
                if e['n'] >= 0 and not f.vars[e['d']].get('ref'):
                    o = self.old(self.atoms(f, e['n']), st)
                    st = (st[0], st[1], st[2] | {e['d']} if o else st[2] - {e['d']}, st[3] - {e['d']}, st[4])
            elif e['e'] == 'init' and e.get('m') and e['n'] >= 0 and depth >= 0:
                m = e['m'].split('::')[-1]
                for d in self.spec:
                    if d == m and self.spec[d][1] == 'val': st = self.give(f, st, d, self.atoms(f, e['n']), e['n'], pm, 'val')
            return [st]
        n = f.nodes[e]; o = n['o']
        if o == 'throw': return []
        if o == 'asn': return [self.write(f, st, n['a'][0], [n['a'][1]], e, pm, n.get('op', '=') == '=')]
        if o == 'un' and n['op'] in ('++', '--'): return [self.write(f, st, n['a'][0], [], e, pm, False)]
        if o not in ('call', 'ctor'): return [st]
        if o == 'call' and n.get('op') in ('=', '+=', '-=', '*=', '/=') and 'obj' in n:
            return [self.write(f, st, n['obj'], n['a'], e, pm, n['op'] == '=')]
        if o == 'call' and self.onthis(f, n):
            k = self.resolve(n)
            g = self.db.fn(k) if k else None
            if g is not None and depth < 9:
                p2 = {}
                for j, a in enumerate(n.get('a', ())):
                    pv = g.params.get(j)
                    if pv is not None and a >= 0: p2[pv] = frozenset(self.members(f, self.atoms(f, a), pm))
                st = self.outwrites(f, st, n, e, pm)
                return [(s[0], s[1], st[2], st[3], s[4]) for s in self.call(g, (st[0], st[1], frozenset(), frozenset(), st[4]), p2, depth + 1)]
        if o == 'call' and 'obj' in n:
            m = self.mp(f, n['obj']); nm = last(n)
            if EXT in self.spec and nm == 'setExtents':
                at = set()
                for a in n['a']: self.atoms(f, a, at)
                ok = 'm_extents' in {head(x) for x in self.members(f, at, pm)} and not self.old(at, st)
                r = self.rootvar(f, n['obj'])
                r = r if r is not None else next((a[1] for a in self.atoms(f, n['obj']) if a[0] == 'v'), None)
                if ok and (m and head(m) == 'm_mapping' or r is not None and r not in st[2] and ('m', 'm_mapping') in self.deps(f).get(r, ())):
                    self.made.add(EXT); st = (st[0] - {EXT},) + st[1:]
                elif ok and r is not None: self.made.add(EXT); st = st[:3] + (st[3] | {r}, st[4])
                return [st]
            if m:
                d, const = m, self.db.decl.get(n.get('f') or '', {}).get('const') or nm in ('begin', 'end', 'size', 'empty', 'get', 'samples', 'linear', 'numSamples', 'front', 'back', 'at')
                at = set()
                for a in n.get('a', ()): self.atoms(f, a, at)
                if d in self.spec and not const:
                    kind = self.spec[d][1]
                    stale, sized, taint, ext, ops = st
                    if nm == 'swap' and n['a'] and f.nodes[strip(f, n['a'][0])]['o'] == 'var': st = self.give(f, st, d, at, e, pm, nm)
                    elif kind == 'size' and nm in ('resize', 'assign'): st = self.give(f, st, d, at, e, pm, nm)
                    elif kind == 'fill' and nm in ('clear', 'assign', 'swap'): st = (stale, sized | {d}, taint, ext, ops)
                    elif kind == 'val' and nm not in ('multVecMatrix',): 
                        if n.get('f') and n.get('op') not in ('[]', '->', '*', '()') and nm in ('setValue', 'makeIdentity', 'reset'): st = self.give(f, st, d, at, e, pm, nm)
                elif head(m) in self.bases_ and not const and not n.get('op') and not (head(m) == 'm_mapping' and '.' not in m and self.deref(f, n['obj'])):
                    st = self.base_write(f, st, m, e)
                if m in CURVES and not const and nm in ('clear', 'addSample', 'swap'):
                    stale, sized, taint, ext, ops = st
                    tag = 'clear' if nm != 'addSample' else 'add ' + self.text(f, n['a'][0])
                    od = dict(ops); o_ = od.get(m, ())
                    if tag == 'clear': od[m] = ('clear',)
                    elif tag not in o_ and len(o_) < 8: od[m] = tuple(sorted(o_ + (tag,)))
                    st = (stale, sized, taint, ext, tuple(sorted(od.items())))
        if o == 'call' and not self.onthis(f, n) and (last(n) == 'swap') and 'obj' in n:
            for a in n.get('a', ()):
                m = self.mp(f, a)
                if m in self.spec and self.spec[m][1] == 'fill': st = (st[0], st[1] | {m}) + st[2:]
        return [self.outwrites(f, st, n, e, pm)]

    def deref(self, f, i):
        while i >= 0:
            n = f.nodes[i]
            if n['o'] == 'call' and n.get('op') in ('->', '*') or n['o'] == 'call' and last(n) == 'get': return True
            if n['o'] in ('load', 'cast', 'un') and n.get('a'): i = n['a'][0]; continue
            return False
        return False

    def outwrites(self, f, st, n, e, pm):
        for a in self.outs(f, n):
            r = f.nodes[strip(f, a)]
            if r['o'] == 'var':
                at = self.atoms(f, e) - {('v', r['d'])}
                st = (st[0], st[1], st[2] | {r['d']} if self.old(at, st) else st[2] - {r['d']}, st[3], st[4])
            else:
                m = self.mp(f, a)
                if m:
                    for d in self.spec:
                        if d != EXT and self.spec[d][1] == 'val' and d == m: st = self.give(f, st, d, self.atoms(f, e) - {('m', d)}, e, pm, 'out')
                    if last(n) != 'swap' or True: st = self.base_write(f, st, m, e) if head(m) in self.bases_ else st
        return st

    def text(self, f, i):
        i = strip(f, i); n = f.nodes[i]
        if n['o'] == 'var': return 'v%d' % n['d']
        if n.get('v') is not None: return str(n['v'])
        return path(f, i) or '?'

    def dead_edge(self, f, b):
        """index of the successor taken when a mapping handed in is null"""
        c = (f.blocks[b].get('tm') or {}).get('c')
        if c is None or len(f.blocks[b]['su']) != 2: return None
        neg, i = False, c
        while True:
            n = f.nodes[i]
            if n['o'] in ('load', 'cast'): i = n['a'][0]
            elif n['o'] == 'un' and n['op'] == '!': neg = not neg; i = n['a'][0]
            elif n['o'] == 'bin' and n['op'] in ('!=', '==') and f.nodes[strip(f, n['a'][1])]['o'] in ('null', 'lit', 'zero'):
                if n['op'] == '==': neg = not neg
                i = n['a'][0]
            elif n['o'] == 'call' and 'obj' in n:
                if n.get('op') == '!': neg = not neg
                i = n['obj']
            elif n['o'] == 'call' and n.get('op') in ('!=', '==') and len(n['a']) == 2:
                if n['op'] == '==': neg = not neg
                i = n['a'][0]
            else: break
        if n['o'] == 'var' and 'FieldMapping' in f.vars[n['d']]['t']: return 0 if neg else 1
        return None

    def call(self, f, st, pm, depth):
        key = (f.k, st, tuple(sorted((k, tuple(sorted(v))) for k, v in pm.items())), self.root)
        if key in self.memo:
            r = self.memo[key]
            return [st] if r is None else r
        self.memo[key] = None
        fl = self.fills(f)
        seen, todo, exits = set(), [(f.entry, st, -1)], set()
        loops = natloops(f)
        while todo:
            b, s, prev = todo.pop()
            if b in fl and prev not in loops[b]:
                for d, at, e in fl[b]:
                    if d in s[1] or self.spec[d][1] == 'val': s = self.give(f, s, d, at, e, pm, 'fill')
                    elif d in s[0]: self.miss.setdefault(d, (f, e, 'keeps entries from before the change'))
            if (b, s) in seen: continue
            seen.add((b, s))
            if len(seen) > 20000: raise AnalysisBroken('too many states in ' + f.name)
            states = [s]
            for e in f.blocks[b]['el']:
                nx = []
                for x in states: nx += self.elem(f, x, e, pm, depth)
                states = nx
            if b == f.exit: exits.update(states); continue
            skip = self.dead_edge(f, b)
            for j, t in enumerate(f.blocks[b]['su']):
                if t is None or t < 0 or j == skip: continue
                for x in states: todo.append((t, x, b))
        r = [(x[0], x[1], st[2], st[3], x[4]) for x in exits]
        r = list(set(r))
        self.memo[key] = r
        return r

def title(k, db): 
    d = db.decl[k]
    q = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', d['q'])).split('::')[-1]
    return '%s(%s)' % (q, ', '.join(re.sub(r'^const |Field3D::|Imath_3_1::|[ &]', '', re.sub(r'<.*>', '', x)) for x in d.get('pt') or []))

def run(ctx):
    db = ctx.db
    ctx.rule('fresh', 'after a public operation that changes what members are computed from, all of them have been computed again', 25)
    ctx.rule('source', 'the member is computed from everything it depends on', 20)
    ctx.rule('samples', 'the curves of a frustum mapping get and lose their samples together', 3)
    ctx.rule('outside', 'what members are computed from is changed by methods of the object only', 5)
    allb = {}
    for cls in sorted(db.recs):
        b = bare(cls)
        spec = dict(SPEC.get(b, {}))
        isfield = any(bare(x) == 'FieldRes' for x in db.bases(cls)) and b not in ('Field', 'WritableField', 'ResizableField')
        if isfield: spec.update(MAPEXT)
        if not spec or not cls.startswith('Field3D'): continue
        fields = {x['n'].split('::')[-1] for c in [cls] + db.bases(cls) for x in db.recs.get(c, {}).get('f', [])}
        spec = {d: s for d, s in spec.items() if d == EXT or head(d) in fields}
        spec = {d: ([x for x in n if x in fields], k) for d, (n, k) in spec.items()}
        if not spec: continue
        M = Machine(db, cls, spec)
        for x in M.bases_: allb.setdefault(x, set()).add(cls)
        done = []
        for c in M.chain:
            for k in db.recs.get(c, {}).get('m', []):
                d = db.decl.get(k, {})
                if k not in db.raw or d.get('static') or d.get('dtor') or d.get('const') or d.get('implicit'): continue
                if d.get('q', '').split('::')[-1] in ('operator=',): continue
                if d.get('ctor'):
                    if c != cls or 'Mapping' not in b or d.get('copy'): continue
                elif d.get('acc', 0) != 0: continue
                f = db.fn(k)
                M.root = k; M.miss = {}
                st = (frozenset(spec) if d.get('ctor') else frozenset(), frozenset(), frozenset(), frozenset(), ())
                ex = M.call(f, st, {}, 0)
                if d.get('ctor'): M.active.add(k)
                if k not in M.active: continue
                done.append(k); ctx.fns.add(k)
                stale = sorted(set().union(*[x[0] for x in ex])) if ex else []
                why = '; '.join('%s %s (%s)' % (s, M.miss[s][2], M.miss[s][0].loc(M.miss[s][1])) if s in M.miss else s + ' is not computed again' for s in stale)
                ctx.ob('fresh', '%s: %s' % (b, title(k, db)), not stale, f.loc(), why, fn=f)
                if b == 'FrustumFieldMapping':
                    cv = [c_ for c_ in CURVES if c_ in fields]
                    bad = None
                    for x in ex:
                        od = dict(x[4])
                        if od:
                            for c_ in cv:
                                if od.get(c_, ()) != od.get(max(od, key=lambda z: len(od[z]))): bad = c_
                    if any(x[4] for x in ex): ctx.ob('samples', title(k, db), bad is None, f.loc(), bad and '%s does not get the same samples as the others' % bad, fn=f)
        for d in spec:
            if done: ctx.ob('source', '%s: %s' % (b, d), d in M.made, db.fn(done[0]).loc(), '' if d in M.made else 'nothing computes it from %s after a change' % ', '.join(spec[d][0]))
    for f in db.fns():
        if f.decl.get('copy') or f.q.split('::')[-1] == 'operator=': continue
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            t = n['a'][0] if n['o'] == 'asn' else n['obj'] if n['o'] == 'call' and n.get('op') == '=' and 'obj' in n else None
            if t is None: continue
            x = t
            while x >= 0 and f.nodes[x]['o'] in ('mem', 'cast', 'load') and f.nodes[x].get('n') not in allb: x = f.nodes[x]['a'][0]
            m = f.nodes[x] if x >= 0 else None
            if not m or m['o'] != 'mem' or m['n'] not in allb: continue
            own = path(f, x) or ''
            good = bool(re.match(r'^[&*]*this', own)) or not own_class(db, f, x, allb[m['n']])
            ctx.ob('outside', '%s in %s' % (m['n'], title(f.k, db)), good, f.loc(e), '' if good else 'changed without the object knowing', fn=f)

def own_class(db, f, x, classes):
    t = f.nodes[f.nodes[x]['a'][0]].get('t') or ''
    return any(bare(c) in t for k in classes for c in [k] + db.bases(k))
