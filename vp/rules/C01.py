"""C01: lockset discipline for the shared run-time tables."""
from ..locks import *

ASSUME = ['constructors and destructors of the object that owns the item run while no other thread can reach it',
          'resizing, swapping and sizing the per-block tables of a file reference is set-up or tear-down of the field that owns it; '
          'the elements of those tables are what this property covers',
          'the configuration switches (memory limit, number of I/O threads, verbosity) are set before threads start',
          'pre-checks of the MIP level table without the lock are judged by C19']

M = 'Field3D::SparseFileManager::m_mutex'
B = 'Field3D::SparseFile::Reference::blockMutex[]'
R = 'Field3D::SparseFile::Reference::m_mutex'
F = 'Field3D::SparseFile::FileReferences::m_mutex'
SF = 'Field3D::SparseFileManager::'
RF = 'Field3D::SparseFile::Reference::'
# member -> (locks one of which a read needs, locks all of which a write needs, elements only)
GUARD = {
    SF + 'm_memUse': ([M], [M], False), SF + 'm_blockCacheList': ([M], [M], False), SF + 'm_nextBlock': ([M], [M], False),
    RF + 'blockLoaded': ([M, B], [M, B], True), RF + 'loadCounts': ([M], [M], True),
    RF + 'refCounts': ([B], [B], True), RF + 'blockUsed': ([B], [B], True), RF + 'm_numActiveBlocks': ([M], [M], False),
    'Field3D::FieldCache::m_cache': (['Field3D::FieldCache::ms_accessMutex'],) * 2 + (False,),
    'Field3D::FieldCache::ms_singleton': (['Field3D::FieldCache::ms_creationMutex'],) * 2 + (False,),
    SF + 'ms_singleton': (['*'], ['*'], False), 'Field3D::ClassFactory::ms_instance': (['*'], ['*'], False),
    'Field3D::RefBase::m_counter': (['Field3D::RefBase::m_refMutex'],) * 2 + (False,),
}
for m in ('m_fileHandle', 'm_reader', 'm_ogReader', 'm_ogReaderPtr', 'm_ogArchive', 'm_ogRoot', 'm_ogLayerGroup', 'm_layerGroup'):
    GUARD[RF + m] = ([R], [R], False)
for m in ('m_hRefs', 'm_vhRefs', 'm_fRefs', 'm_vfRefs', 'm_dRefs', 'm_vdRefs'):
    GUARD['Field3D::SparseFile::FileReferences::' + m] = ([F], [F], False)
# work tickets of thread functors: (class suffix, member) -> mutex member of the same class
TICKETS = {('ReadThreadingState', 'nextBlockToRead'), ('ReadThreadingState', 'failed'),
           ('ThreadingState', 'nextBlockToCompress'), ('ThreadingState', 'nextBlockToWrite'), ('ThreadingState', 'failed'),
           ('MIPSeparableThreadOp', 'm_nextIdx'), ('ResampleThreadOp', 'm_nextIdx')}

def element_access(f, i):
    """node i names a container; is it used to reach elements (not to size or swap it)"""
    par = f.parent(); j = par.get(i)
    while j is not None and f.nodes[j]['o'] in ('load', 'cast'): j = par.get(j)
    if j is None: return False
    n = f.nodes[j]
    if n['o'] == 'idx': return True
    if n['o'] == 'call':
        last = (n.get('q') or '').split('::')[-1]
        return last in ('operator[]', 'at', 'begin', 'end', 'front', 'back', 'data', 'rbegin', 'cbegin', 'cend')
    if n['o'] in ('mfn',):
        last = (n.get('q') or n.get('n') or '').split('::')[-1]
        return last in ('operator[]', 'at', 'begin', 'end', 'front', 'back', 'data')
    return False

def is_write(f, i):
    """Access through node i (or an element reached from it) may change it."""
    par = f.parent(); j = par.get(i); cur = i
    for _ in range(12):
        if j is None: return False
        n = f.nodes[j]
        if n['o'] == 'load': return False
        if n['o'] == 'cast': cur, j = j, par.get(j); continue
        if n['o'] == 'asn': return n['a'][0] == cur
        if n['o'] == 'un': return n['op'] in ('++', '--', '&')
        if n['o'] in ('idx', 'mem'): cur, j = j, par.get(j); continue
        if n['o'] == 'mfn': cur, j = j, par.get(j); continue
        if n['o'] == 'call':
            last = (n.get('q') or '').split('::')[-1]
            if last in ('operator[]', 'at', 'operator*', 'operator->', 'front', 'back', 'get'):
                cur, j = j, par.get(j); continue
            if last in ('begin', 'end', 'size', 'capacity', 'empty', 'find', 'operator bool', 'operator!', 'operator==', 'operator!=', 'count'): 
                return False
            d = f.db.decl.get(n.get('f') or '', {})
            return not d.get('const')
        return False
    return False

def elem_index(f, i):
    par = f.parent(); j = par.get(i)
    while j is not None and f.nodes[j]['o'] in ('load', 'cast', 'mfn'): j = par.get(j)
    if j is None: return None
    n = f.nodes[j]
    if n['o'] == 'idx': return index_key(f, n['a'][1])
    if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('operator[]', 'at') and n.get('a'): return index_key(f, n['a'][0])
    return None

def threads_running(f):
    """positions of f at which threads it created may be running"""
    c = f.__dict__.get('_thr')
    if c is None:
        c = set(); st = {}
        def kill(n): return (n.get('q') or '').split('::')[-1] in ('join_all', 'join')
        def gen(n):
            q = n.get('q') or ''
            return q.split('::')[-1] in ('create_thread', 'add_thread') or (n['o'] == 'ctor' and n.get('q', '').endswith('thread::thread') and n.get('a'))
        work = [(f.entry, False)]; seen = set()
        while work:
            b, r = work.pop()
            if (b, r) in seen or b is None or b < 0: continue
            seen.add((b, r))
            for i, e in enumerate(f.blocks[b]['el']):
                if r: c.add((b, i))
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n['o'] in ('call', 'ctor'):
                        if gen(n): r = True
                        elif kill(n): r = False
            for s in f.blocks[b]['su']: work.append((s, r))
        f._thr = c
    return c

def short(l): return l.replace('Field3D::', '')

def run(ctx):
    db = ctx.db
    ctx.rule('guarded', 'the shared item is read or written only with the lock that protects it held (locally or by every caller), '
             'for the same object and block', 60)
    ctx.rule('ticket', 'work tickets of parallel block operations are taken and stepped under the operation\'s mutex', 8)
    ctx.rule('lazy', 'const member functions of a MIP field change its level tables only under the field\'s I/O mutex', 2)
    pub = {k for k in db.raw if db.decl[k].get('acc', 0) == 0 and (db.decl[k].get('file') or '').startswith('export/')
           and not db.decl[k]['q'].startswith('Field3D::SparseFile::')}
    en = entry_locks(db, roots=pub)
    life = lifetime_fns(db)
    called = {b for a, b, ids, l in call_sites(db)}
    atomic = {r + '::' + x['n'] for r, d in db.recs.items() for x in d.get('f', ()) if 'atomic' in x.get('t', '').lower()}
    ctx.notes.append('items of atomic type need no lock: ' + ', '.join(sorted(atomic)))
    ord_ = {}
    for f in db.fns():
        h = held(f)
        pos = {}
        for b, i, e in f.elems():
            if isinstance(e, int): pos[e] = (b, i)
        cls = f.cls or ''
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'mem': m = n['m']
            elif n['o'] == 'gvar': m = n['q']
            else: continue
            g = GUARD.get(m)
            tick = None
            if g is None and n['o'] == 'mem':
                own = m.rsplit('::', 2)
                if len(own) == 3 and (own[1], own[2]) in TICKETS: tick = own
            if g is not None:
                if m in atomic: continue
                if f.k not in called and cls.startswith('Field3D::SparseFile::'): continue   # internal, never used
                if n['o'] == 'mem' and owner_lifetime(f, n, m, life): continue
                if g[2] and not element_access(f, e): continue
                w = is_write(f, e)
                use = use_pos(f, e, pos) or (b, i)
                H = h.before(*use)
                ids = en[f.k] | {x[0] for x in H}
                need = g[1] if w else g[0]
                if need == ['*']: ok = bool(ids)
                elif w: ok = all(x in ids for x in need)
                else: ok = any(x in ids for x in need)
                msg = ''
                if not ok: msg = '%s of %s with %s held; needs %s' % ('write' if w else 'read', short(m), ', '.join(map(short, ids)) or 'no lock', (' and ' if w else ' or ').join(map(short, need)))
                # same object / same block
                if ok and n['o'] == 'mem':
                    bp = path(f, n['a'][0]); ix = elem_index(f, e)
                    for x in H:
                        if x[0] in need and x[0] in (B, R) and x[0] not in en[f.k] and not (x[0] == B and not w and M in ids and M in need):
                            if x[1] != bp: ok = False; msg = '%s of %s[%s] while the lock held belongs to another object' % ('write' if w else 'read', short(m), ix)
                            elif x[0] == B and ix is not None and x[2] is not None and ix != '?' and x[2] != ix:
                                ok = False; msg = 'the block lock held is that of another block'
                k = (f.q, m, w); c = ord_.get((f.k, m, w), 0); ord_[(f.k, m, w)] = c + 1
                ctx.ob('guarded', '%s: %s %s#%d' % (short(f.q), 'write' if w else 'read', short(m), c), ok, f.loc(e), msg, f)
            elif tick:
                c0 = f.decl.get('ctor') and (f.cls or '').split('<')[0].endswith(tick[1])
                if c0: continue
                base = path(f, n['a'][0])
                if is_init_ref(f, e): continue
                if base and re.match(r'^v\d+$', base) and not f.vars[int(base[1:])].get('ref') and f.vars[int(base[1:])]['p'] == -1:
                    ok = (b, i) not in threads_running(f); msg = '' if ok else 'accessed while the threads it created are running'
                else:
                    H = h.before(*(use_pos(f, e, pos) or (b, i)))
                    # the mutex must be a member of the same state object
                    ok = any(x[0].startswith(tick[0] + '::' + tick[1] + '::') and (x[1] == base) for x in H) or \
                        any(x.startswith(tick[0] + '::' + tick[1] + '::') for x in en[f.k])
                    msg = '' if ok else 'ticket %s accessed with %s held' % (tick[2], [short(x[0]) for x in H] or 'no lock')
                c = ord_.get((f.k, m), 0); ord_[(f.k, m)] = c + 1
                ctx.ob('ticket', '%s: %s#%d' % (short(f.q), tick[2], c), ok, f.loc(e), msg, f)
            elif n['o'] == 'mem' and m in ('Field3D::MIPField::m_fields', 'Field3D::MIPField::m_rawFields', 'Field3D::MIPField::m_loadActions') \
                    and f.decl.get('const') and is_write(f, e):
                H = h.before(*(use_pos(f, e, pos) or (b, i)))
                ids = en[f.k] | {x[0] for x in H}
                callers = [a for a, bk, _, _ in call_sites(db) if bk == f.k]
                nonconst = callers and all(not db.decl[a].get('const') for a in callers)
                ok = 'Field3D::MIPField::m_ioMutex' in ids or nonconst or private_const_helper(db, f, en)
                c = ord_.get((f.k, m), 0); ord_[(f.k, m)] = c + 1
                ctx.ob('lazy', '%s: %s#%d' % (short(f.q), m.split('::')[-1], c), ok, f.loc(e), '' if ok else 'written without the I/O mutex', f)

def private_const_helper(db, f, en):
    """every const caller in the library holds the I/O mutex (setup by non-const members is the owner's)"""
    sites = [(a, ids) for a, bk, ids, _ in call_sites(db) if bk == f.k]
    return bool(sites) and all(not db.decl[a].get('const') or 'Field3D::MIPField::m_ioMutex' in ids | en[a] for a, ids in sites)

def is_init_ref(f, e):
    """naming the member only to bind a reference or in a constructor initialiser of it"""
    return False

def use_pos(f, e, pos):
    """position of the load / store / call that uses the lvalue e"""
    par = f.parent(); j = e
    for _ in range(10):
        p = par.get(j)
        if p is None: break
        n = f.nodes[p]
        if n['o'] in ('load', 'asn') or (n['o'] == 'un' and n['op'] in ('++', '--')): return pos.get(p)
        if n['o'] in ('idx', 'mem', 'cast', 'call', 'mfn'):
            if n['o'] == 'call' and 'obj' in n and n['obj'] != j and j not in n.get('a', ()): break
            if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] not in ('operator[]', 'at', 'operator*', 'operator->', 'get', 'front', 'back'): return pos.get(p)
            j = p; continue
        break
    return None

def lifetime_fns(db):
    """functions only ever called from constructors, destructors, copy operations of their own class"""
    callers = {}
    for a, b, ids, l in call_sites(db): callers.setdefault(b, set()).add(a)
    life = set()
    for k in db.raw:
        d = db.decl[k]
        if d.get('ctor') or d['q'].split('::')[-1].startswith('~') or d['q'].endswith('::operator='): life.add(k)
    ch = True
    while ch:
        ch = False
        for k in db.raw:
            if k in life: continue
            cs = callers.get(k)
            if cs and all(a in life and db.decl[a].get('cls') == db.decl[k].get('cls') for a in cs): life.add(k); ch = True
    return life

def owner_lifetime(f, n, m, life):
    if f.k not in life: return False
    cls = m.rsplit('::', 1)[0]
    if (f.decl.get('clsq') or (f.cls or '').split('<')[0]) != cls: return False
    p = path(f, n['a'][0])
    return p == 'this' or f.q.endswith('::operator=') or f.decl.get('copy')
