"""C03: HDF5 calls under the global HDF5 lock."""
from ..locks import *

ASSUME = ['functions the library only hands to HDF5 as callbacks run inside the HDF5 call they were handed to',
          'a free function whose first parameter is an HDF5 identifier and that takes a field (writeField) is a helper for code that is already working on an open HDF5 file and so holds the lock; it is judged by its callers in the library',
          'an expression that only names an HDF5 type inside DataTypeTraits::h5type() is charged to its callers']

H5 = re.compile(r'^H5[A-Z]*[a-z]')

def run(ctx):
    db = ctx.db
    ctx.rule('locked', 'the call into HDF5 is made with the process-wide HDF5 lock held, locally or by every caller', 100)
    cand = {}
    for f in db.fns():
        for b, i, lid, l in held(f).acquisitions():
            cand[lid[0]] = cand.get(lid[0], 0) + 1
    if not cand: raise AnalysisBroken('no lock found')
    LOCK = max((k for k in cand if 'hdf5' in k.lower() and '::ms_' not in k), key=lambda k: cand[k], default=None)
    if LOCK is None: raise AnalysisBroken('the HDF5 lock was not found')
    pub = {k for k in db.raw if db.decl[k].get('acc', 0) == 0 and (db.decl[k].get('file') or '').startswith('export/')
           and not h5type(db.decl[k]['q']) and (db.decl[k].get('cls') or not on_open_file(db, k))}
    en = entry_locks(db, roots=pub)
    callbacks = set()
    for f in db.fns():
        for e, n in f.calls():
            if H5.match(n.get('q') or ''):
                for a in n.get('a', ()):
                    j = strip(f, a)
                    while j is not None and j >= 0 and f.nodes[j]['o'] == 'un' and f.nodes[j]['op'] == '&': j = strip(f, f.nodes[j]['a'][0])
                    if j is not None and j >= 0 and f.nodes[j]['o'] == 'fn': callbacks.add(f.nodes[j].get('f'))
    called = set()
    for a, b, ids, l in call_sites(db): called.add(b)
    cnt = {}
    for f in db.fns():
        h = held(f)
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] != 'call' or not (H5.match(n.get('q') or '') or h5type(n.get('q') or '')): continue
            if h5type(f.q): continue
            ids = en[f.k] | {x[0] for x in h.before(b, i)}
            ok = LOCK in ids or f.k in callbacks
            key = (f.q, n['q']); 
            ctx.ob('locked', '%s: %s' % key, ok, f.loc(e),
                   '' if ok else '%s is called without %s on a path through %s' % (n['q'], LOCK, unlocked_chain(db, f.k, en, LOCK)), f)
    ctx.notes.append('lock: %s, acquired at %d places; HDF5 callbacks: %d' % (LOCK, cand[LOCK], len(callbacks)))

def on_open_file(db, k):
    """A free function whose first parameter is an HDF5 identifier and that takes a field: its caller already works inside an open HDF5 file."""
    pt = db.decl[k].get('pt') or []
    return bool(pt) and pt[0] == 'long' and any('Field' in t and 'ptr' in t for t in pt[1:])

def h5type(q): return q.endswith('::h5type')

def unlocked_chain(db, k, en, LOCK):
    out = [db.fn(k).q]; seen = {k}
    while len(out) < 6:
        nx = [a for a, b, ids, l in call_sites(db) if b == k and LOCK not in ids and LOCK not in en[a] and a not in seen]
        if not nx: break
        k = nx[0]; seen.add(k); out.append(db.fn(k).q)
    return ' <- '.join(out)
