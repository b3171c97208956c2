"""Backward value slices (flow insensitive, member sensitive, through parameters)."""
from .core import *

def defs(f):
    """root path -> [(path, kind, node)]; kind 'val' (node is the value) or 'out' (node
    is the call that stores through a reference or pointer argument)."""
    r = f.__dict__.get('_defs')
    if r is not None: return r
    r = {}
    def add(p, kind, i, j=None):
        if p is None: return
        if p.startswith('&'): p = p[1:]
        r.setdefault(base_root(p) if not p.startswith('this.') else 'this', []).append((p, kind, i, j))
    db = f.db
    for _, _, e in f.elems():
        if isinstance(e, dict):
            if e['e'] == 'decl' and e['n'] >= 0 and not (f.vars[e['d']].get('ref') and path(f, e['n'])): add('v%d' % e['d'], 'val', e['n'])
            elif e['e'] == 'init' and e.get('m') and e['n'] >= 0: add('this.' + e['m'].split('::')[-1], 'val', e['n'])
            continue
        n = f.nodes[e]
        if n['o'] == 'asn': add(path(f, n['a'][0]), 'val', n['a'][1])
        elif n['o'] in ('call', 'ctor'):
            if n.get('op') == '=' and 'obj' in n: add(path(f, n['obj']), 'val', n['a'][0]); continue
            pts = db.decl.get(n.get('f') or '', {}).get('pt', [])
            for j, a in enumerate(n.get('a', ())):
                pt = pts[j] if j < len(pts) else ''
                if pt.endswith('&') and not pt.startswith('const ') or pt.endswith('*') and not pt.startswith('const '):
                    add(path(f, a), 'out', e, j)
            if 'obj' in n and n['o'] == 'call':
                last = (n.get('q') or '').split('::')[-1]
                if last in ('push_back', 'assign', 'insert', 'makeInfinite', 'extendBy', 'append', 'reset', 'swap') or n.get('op') in ('+=', '-=', '*='):
                    p = path(f, n['obj'])
                    for a in n.get('a', ()): add(p, 'val', a)
    f._defs = r
    return r

class Slice:
    """leaf(f, i, n, out) -> label or None; a labelled node is not looked into."""
    def __init__(self, db, leaf, depth=4, callers=True):
        self.db, self.leaf, self.depth, self.callers = db, leaf, depth, callers
    def of(self, f, i):
        """{(label, suffix below the label, member path the value was stored into)}"""
        self.out = set(); self.seen = set()
        self.ex(f, i, (), (), 0)
        return self.out
    def ex(self, f, i, sfx, into, d):
        if i is None or i < 0: return
        sfx = sfx[:4]; into = into[:4]
        key = (f.k, i, sfx, into)
        if key in self.seen or len(self.seen) > 20000: return
        self.seen.add(key)
        n = f.nodes[i]; o = n['o']
        lb = self.leaf(f, i, n, None)
        if lb is not None:
            self.out.add((lb, '.'.join(sfx), '.'.join(into))); return
        if o == 'mem':
            p = path(f, i)
            if p: self.pth(f, p, sfx, into, d)
            if p is None or not p.startswith('this.'): self.ex(f, n['a'][0], (n['n'],) + sfx, into, d)
            return
        if o in ('var', 'this'):
            p = path(f, i)
            if p: self.pth(f, p, sfx, into, d)
            return
        if o == 'call' and n.get('op') in ('->', '*') and 'obj' in n:
            return self.ex(f, n['obj'], sfx, into, d)
        if o in ('load', 'cast') or (o == 'un'): return self.ex(f, n['a'][0], sfx, into, d)
        if o == 'ctor' and len(n['a']) == 1: return self.ex(f, n['a'][0], sfx, into, d)
        if o == 'call' and n.get('f') in self.db.raw and d < self.depth:
            g = self.db.fn(n['f'])
            if (g.q.startswith('Field3D') or '(anon' in g.q):
                for _, _, e in g.elems():
                    if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0: self.ex(g, e['n'], sfx, into, d + 1)
        for a in kids(n): self.ex(f, a, (), into, d)
    def pth(self, f, p, sfx, into, d):
        """A read of path p (then members sfx)."""
        if p.startswith('&'): p = p[1:]
        root = 'this' if p.startswith('this.') else base_root(p)
        rest = tuple(x for x in p[len(root):].replace('*', '').split('.') if x) + sfx
        for dp, kind, i, j in defs(f).get(root, ()):
            dr = tuple(x for x in dp[len(root):].replace('*', '').split('.') if x)
            m = min(len(dr), len(rest))
            if dr[:m] != rest[:m]: continue
            left = rest[m:]; more = into + dr[m:]
            if kind == 'val': self.ex(f, i, left, more, d)
            else:
                lb = self.leaf(f, i, f.nodes[i], j)
                if lb is not None: self.out.add((lb, '.'.join(left), '.'.join(more)))
                elif f.nodes[i].get('f') in self.db.raw and d < self.depth:
                    g = self.db.fn(f.nodes[i]['f'])
                    pv = g.params.get(j)
                    if pv is not None: self.pth(g, 'v%d' % pv, left, more, d + 1)
        if root.startswith('v'):
            v = f.vars[int(root[1:])]
            if v['p'] >= 0 and self.callers and d < self.depth:
                for g, e in self.db.callers().get(f.k, ()):
                    if e < 0: continue
                    a = g.nodes[e].get('a', ())
                    if v['p'] < len(a): self.ex(g, a[v['p']], rest, into, d + 1)
