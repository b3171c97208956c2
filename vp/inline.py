"""Copies of a function with the bodies of helpers in place of their calls."""
import copy
from .core import *
from .facts import Fn, AnalysisBroken

class InlFn(Fn):
    def __init__(self, db, k, d, origin):
        Fn.__init__(self, db, k, d)
        self.origin = origin      # node id -> (function, its node id) the node came from
    def loc(self, n=None):
        if isinstance(n, int) and n >= 0 and n in self.origin:
            g, m = self.origin[n]
            return g.loc(m)
        return Fn.loc(self, n)

def _shift(n, off, voff, toff, y):
    n = dict(n)
    for key in ('a', 'pl'):
        if key in n: n[key] = [x + off if x is not None and x >= 0 else x for x in n[key]]
    for key in ('obj', 'fp', 'sz'):
        if n.get(key) is not None and n.get(key, -1) >= 0: n[key] = n[key] + off
    if n['o'] == 'var': n['d'] = n['d'] + voff
    if 'y' in n and n['y'] is not None and n['y'] >= 0: n['y'] = n['y'] + toff
    elif n['o'] in ('call', 'ctor', 'new', 'throw', 'delete') and y >= 0: n['y'] = y
    return n

def inline(db, k, pick, depth=3, limit=6000, _stack=()):
    """pick(f, n, target key) says which calls are replaced."""
    f = db.fn(k)
    if f is None: return None
    d = copy.deepcopy(f.d)
    origin = {i: (f, i) for i in range(len(d['no']))}
    no, va, tr, bl = d['no'], d['va'], d['tr'], {b['id']: b for b in d['bl']}
    nid = max(bl) + 1
    todo = [b for b in bl]
    spliced = {}                 # call node -> what was spliced in (copies of its block need it too)
    while todo:
        bid = todo.pop()
        b = bl[bid]
        for i, e in enumerate(b['el']):
            if not isinstance(e, int): continue
            if i == 0 and b.get('_cont') == e: continue
            if e in spliced:
                if len(bl) > 3000: raise AnalysisBroken('inlining does not end in ' + str(k))
                g, off, voff, toff, pre, rv = spliced[e]
                n = None
            else: n = no[e]
            if n is None:
                boff = nid; nid += max(g.blocks) + 1
                nid = splice(bl, b, i, e, g, off, voff, toff, pre, rv, boff, nid, todo)
                break
            if n['o'] != 'call' or not n.get('f'): continue
            ts = [t for t in db.targets(n)]
            if len(ts) != 1 or ts[0] not in db.raw or ts[0] == k or ts[0] in _stack or not pick(f, n, ts[0]): continue
            g = inline(db, ts[0], pick, depth - 1, limit, _stack + (k,)) if depth > 1 else db.fn(ts[0])
            if g is None or len(no) + len(g.nodes) > limit: continue
            # ---- splice
            off, voff, toff = len(no), len(va), len(tr)
            y = n.get('y', -1)
            thisrep = None
            if 'obj' in n:
                o = no[n['obj']]
                if o['o'] == 'this': pass
                else:
                    thisrep = len(no) + len(g.nodes)      # index of the extra node, appended below
            for j, m in enumerate(g.nodes):
                m2 = _shift(m, off, voff, toff, y)
                if m2['o'] == 'this' and thisrep is not None:
                    m2 = {'o': 'cast', 'ck': 'NoOp', 'a': [thisrep], 't': m['t'], 'l': m.get('l')}
                no.append(m2)
                origin[off + j] = g.origin.get(j, (g, j)) if isinstance(g, InlFn) else (g, j)
            if thisrep is not None:
                no.append({'o': 'cast', 'ck': 'NoOp', 'a': [n['obj']], 't': '', 'l': n.get('l')} if n.get('arrow') else
                          {'o': 'un', 'op': '&', 'a': [n['obj']], 't': '', 'l': n.get('l')})
            wr = set()
            for m in g.nodes:
                if m['o'] == 'asn' or (m['o'] == 'un' and m['op'] in ('++', '--')):
                    a = g.nodes[m['a'][0]]
                    if a['o'] == 'var': wr.add(a['d'])
            pre = []
            for vi, v in enumerate(g.vars):
                v2 = dict(v)
                if v2['p'] >= 0:
                    p = v2['p']; v2['p'] = -1
                    arg = n['a'][p] if p < len(n.get('a', ())) else -1
                    if arg is not None and arg >= 0:
                        ap = None
                        if not v2.get('ref') and vi not in wr:
                            s = strip_(no, arg)
                            if no[s]['o'] == 'var' or '*' in v2['t']: v2['ref'] = True
                        pre.append({'e': 'decl', 'd': voff + vi, 'n': arg, 'l': n.get('l')})
                va.append(v2)
            rv = len(va)
            va.append({'n': '$ret', 't': n['t'], 'p': -1})
            for t in g.tries:
                t2 = copy.deepcopy(t)
                t2['parent'] = t2['parent'] + toff if t2['parent'] is not None and t2['parent'] >= 0 else y
                tr.append(t2)
            back = {'o': 'load', 'a': [len(no)], 't': n['t'], 'l': n.get('l')}
            no.append({'o': 'var', 'd': rv, 't': n['t'], 'l': n.get('l')}); origin[len(no) - 1] = (f, e)
            back['y'] = y
            no[e] = back
            spliced[e] = (g, off, voff, toff, pre, rv)
            boff = nid; nid += max(g.blocks) + 1
            nid = splice(bl, b, i, e, g, off, voff, toff, pre, rv, boff, nid, todo)
            break
    if not _stack: thread(no, bl)
    d['bl'] = list(bl.values())
    return InlFn(db, k, d, origin)

def splice(bl, b, i, e, g, off, voff, toff, pre, rv, boff, nid, todo):
    """put a copy of the callee's blocks between the two halves of block b"""
    rest = b['el'][i + 1:]
    tail = {key: v for key, v in b.items() if key not in ('id', 'el', 'lb', '_cont')}
    conts = []
    nret = sum(1 for gb in g.blocks.values() for x in gb['el'] if isinstance(x, dict) and x['e'] == 'ret')
    st = {'nid': nid, 'shared': None}
    def cont():
        if st['shared'] is not None and (nret > 6 or len(bl) > 400): return st['shared']
        c = st['nid']; st['nid'] += 1
        nb = dict(copy.deepcopy(tail)); nb['id'] = c; nb['el'] = [e] + list(rest); nb['_cont'] = e
        bl[c] = nb; conts.append(c); st['shared'] = c
        return c
    for gid, gb in g.blocks.items():
        if gid == g.exit: continue
        nb = copy.deepcopy(gb); nb['id'] = gid + boff
        nb.pop('_cont', None)
        el2 = []
        for x in nb['el']:
            if isinstance(x, int): el2.append(x + off); continue
            x = dict(x)
            if 'n' in x and x['n'] is not None and x['n'] >= 0: x['n'] += off
            if 'd' in x and isinstance(x['d'], int): x['d'] += voff
            if x['e'] == 'ret':
                if x.get('n', -1) is None or x.get('n', -1) < 0: continue
                x = {'e': 'decl', 'd': rv, 'n': x['n'], 'l': x.get('l')}
            el2.append(x)
        nb['el'] = el2
        tm = nb.get('tm')
        if tm:
            for key in ('c', 'n'):
                if isinstance(tm.get(key), int) and tm[key] >= 0: tm[key] += off
        lb = nb.get('lb')
        if lb and 'try' in lb: lb['try'] += toff
        nb['su'] = [(cont() if s == g.exit else s + boff) if s is not None and s >= 0 else s for s in gb['su']]
        bl[nb['id']] = nb
    # the calling block ends here
    b['el'] = b['el'][:i] + pre
    b.pop('tm', None)
    b['su'] = [g.entry + boff]
    todo += conts
    return st['nid']

def thread(no, bl):
    """'a && b' decided by a false 'a' goes straight to where the decision leads."""
    for b in bl.values():
        tm = b.get('tm')
        if not tm or tm.get('op') not in ('&&', '||') or 'n' not in tm or len(b['su']) != 2: continue
        j = 1 if tm['op'] == '&&' else 0
        for _ in range(4):
            t = bl.get(b['su'][j])
            if t is None: break
            t2 = t.get('tm')
            if not t2 or 'c' not in t2 or len(t['su']) != 2 or t2['k'] == 'SwitchStmt' or strip_(no, t2['c']) != tm['n']: break
            if any(not isinstance(e, int) or strip_(no, e) != tm['n'] for e in t['el']): break
            b['su'] = list(b['su']); b['su'][j] = t['su'][j]

def strip_(no, i):
    while no[i]['o'] in ('load', 'cast'): i = no[i]['a'][0]
    return i
