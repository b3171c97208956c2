"""C02: lock order."""
from ..locks import *

ASSUME = ['locks are identified by the member or global they live in; the elements of a lock array count as one lock, '
          'except that taking a fixed element while holding a provably different one is allowed',
          'a mutex inside boost, zlib or HDF5 is never held while library code runs']

def distinct_element(f, b, i, lid, chain_call):
    """The recursive call passes constant c for the index held; with index==c it is unreachable."""
    for e, n in f.calls():
        if n.get('f') != f.k: continue
        h = held(f)
        pos = [(bb, ii) for bb, ii, x in f.elems() if x == e]
        if not any(lid[0] in [z[0] for z in h.before(*p)] for p in pos): continue
        cs = [f.nodes[a].get('v') for a in n.get('a', ()) if isinstance(f.nodes[a].get('v'), int)]
        ok = False
        for c in cs:
            for bb, ii, l2, ln in h.acquisitions():
                if l2[0] == lid[0] and l2[2]:
                    cp = Const(f).run(start=(bb, ii + 1), env0={l2[2]: C(c)})
                    if e not in cp.reached: ok = True
        if not ok: return False
    return True

def run(ctx):
    db = ctx.db
    ctx.rule('order', 'lock B is taken while A is held only if A is never taken while B is held (no cycle in the order)', 8)
    ctx.rule('self', 'a lock that is not recursive is not taken by a thread that holds it already', 8)
    E, S = order_edges(db)
    G = {}
    for a, b in E: G.setdefault(a, set()).add(b)
    def reach(a, b):
        seen, todo = {a}, [a]; par = {}
        while todo:
            x = todo.pop()
            if x == b and par: break
            for y in G.get(x, ()):
                if y not in seen: seen.add(y); par[y] = x; todo.append(y)
        if b not in par: return None
        p = [b]
        while p[-1] != a: p.append(par[p[-1]])
        return p[::-1]
    for (a, b), (f, l, c) in sorted(E.items()):
        back = reach(b, a)
        ctx.ob('order', '%s then %s' % (a, b), back is None, f.loc({'l': l}),
               '' if back is None else 'taken in %s, but the opposite order exists: %s' % (
                   ctx_chain(db, f.k, c), '; '.join('%s then %s at %s' % (x, y, E[(x, y)][0].loc({'l': E[(x, y)][1]})) for x, y in zip(back, back[1:]))), f)
    seen = set()
    for f in db.fns():
        h = held(f)
        if not h.any: continue
        for b, i, lid, l in h.acquisitions():
            seen.add(lid[0])
            if lid[0] in db.__dict__.get('_recursive', ()): continue
            bad = S.get((lid[0], f.q))
            if bad and lid[0].endswith('[]') and distinct_element(f, b, i, lid, None): bad = None
            ctx.ob('self', '%s in %s' % (lid[0], f.q), not bad, f.loc({'l': l}),
                   bad and 'already held when reached through ' + ctx_chain(db, bad[0].k, bad[2]), f)
    ctx.notes.append('locks: ' + ', '.join(sorted(seen)))
