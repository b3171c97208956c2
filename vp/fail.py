"""Failure propagation: assume a fallible operation failed, propagate constants,
and require every exit reachable from it to be a failure exit."""
from .core import *

# External operations with a status that says "the transfer/creation did not happen".
# (H5Pcreate, H5Screate, its extent setter and string padding are left out: when they
# fail, a later call of this table fails on the bad handle.)
H5_NEG = {
    'H5Awrite', 'H5Dwrite', 'H5Aread', 'H5Dread', 'H5Dcreate2', 'H5Acreate2', 'H5Gcreate2', 'H5Fcreate',
    'H5Fopen', 'H5Dopen2', 'H5Gopen2', 'H5Aopen', 'H5Aopen_idx', 'H5Dget_space', 'H5Dget_type', 'H5Aget_space', 'H5Aget_type',
    'H5Sselect_hyperslab', 'H5Pset_chunk', 'H5Pset_deflate', 'H5Tcopy',
    'H5Tset_size', 'H5Literate', 'H5Oget_info_by_name', 'H5Tget_native_type'}
EXT_FAIL = {q: -1 for q in H5_NEG}
EXT_FAIL.update({'compress2': -5, 'compress': -5, 'uncompress': -3})

def derives(db, cls, base_q):
    if not cls: return False
    for b in [cls] + db.bases(cls):
        r = db.recs.get(b)
        if r and r['q'] == base_q: return True
    return False

def rkind(d):
    rt = d.get('rt', '')
    if rt == 'bool': return 'bool'
    if d.get('rs') in ('hid_t', 'herr_t', 'htri_t'): return 'neg'
    if rt.endswith('*') or is_smart(rt): return 'ptr'
    return None

def failing_value(f):
    """Predicate telling whether an exit (kind, value) of f reports failure."""
    k0 = rkind(f.decl)
    if k0 == 'bool': return lambda k, v: k == 'throw' or (v is not None and v == C(0))
    if k0 == 'neg': return lambda k, v: k == 'throw' or (v is not None and v[0] == 'c' and v[1] < 0)
    if k0 == 'ptr': return lambda k, v: k == 'throw' or v == C(0)
    return lambda k, v: k == 'throw'

def entry_states(f):
    """Element-entry constant states from a plain run (cached)."""
    r = f.__dict__.get('_cstates')
    if r is None:
        r = {}
        ip = Const(f)
        def on(bid, i, e, env):
            key = (bid, i)
            cur = r.get(key)
            r[key] = dict(env) if cur is None else {k: v for k, v in cur.items() if env.get(k) == v}
        ip.on_elem = on
        ip.on_decl = on
        ip.run()
        f._cstates = r
        f._plain = ip
    return r

def plain(f):
    entry_states(f)
    return f._plain

def propagate(f, bid, i, e, value, post=None, hook=None, stop=None, after=False):
    """Exits reachable from element (bid,i)=node e, assuming node e evaluates to
    value; post(env) adjusts the state right after.  Single fault: calls made
    afterwards do not raise on their own account (explicit throws still do)."""
    st = entry_states(f).get((bid, i))
    if st is None: return None            # unreachable
    ip = Const(f, hook or cascade)
    ip.single_fault = True
    ip.after_decl = cascade_decl
    ip.on_elem = stop
    if post is None:
        ip.run((bid, i), st, {e: value})
    else:
        env = dict(st)
        if isinstance(e, int):
            env.pop('n%d' % e, None)
            ip.effects(e, env)
            if value is not None: env['n%d' % e] = value
        post(env)
        ip.run((bid, i + 1), env, None)
    return ip

CASCADE = set(EXT_FAIL) | {'H5Screate', 'H5Sget_simple_extent_dims', 'H5Sset_extent_simple', 'H5Aclose', 'H5Sget_simple_extent_ndims', 'H5Tget_size', 'H5Tget_class', 'H5Tset_strpad'}

def isneg(v): return bool(v) and v[0] == 'c' and isinstance(v[1], int) and v[1] < 0

def bad_facts(ip, n, env):
    """Facts about invalid handles/groups that a call passes on: tuple of
    (('arg', j, suffix) or ('this', suffix), value)."""
    out = []
    f = ip.f
    for j, a in enumerate(n.get('a', ())):
        v = ip.val(a, env)
        if isneg(v): out.append((('arg', j, ''), v)); continue
        p = path(f, a)
        if p is not None:
            for sfx, t in (('.m_group', C(0)), ('.m_id', C(-1))):
                if env.get(p + sfx) == t: out.append((('arg', j, sfx), t))
    if 'obj' in n:
        p = path(f, n['obj'])
        if p is not None:
            for sfx, t in (('.m_group', C(0)), ('.m_id', C(-1))):
                if env.get(p + sfx) == t: out.append((('this', sfx), t))
    return tuple(out)

def summary(db, k, facts):
    """What function k does given those facts: THROW, a constant, 'open' (a
    constructor that leaves an invalid object) or None (may look like success)."""
    c = db.__dict__.setdefault('_summ', {})
    if (k, facts) in c: return c[(k, facts)]
    c[(k, facts)] = None
    f = db.fn(k)
    if f is None: return None
    env = {}
    for key, v in facts:
        if key[0] == 'this': env['this' + key[1]] = v
        elif key[1] in f.params: env['v%d%s' % (f.params[key[1]], key[2])] = v
    if not env: return None
    ip = Const(f, cascade); ip.single_fault = True; ip.after_decl = cascade_decl
    ip.run(None, env)
    r = None
    ex = ip.exits
    if ex and all(kk == 'throw' for kk, v, l, e in ex): r = THROW
    elif ex and rkind(f.decl):
        vs = [v for kk, v, l, e in ex if kk == 'ret']
        isf = failing_value(f)
        if vs and all(isf('ret', v) for v in vs): r = vs[0]
        elif vs and vs[0] is not None and all(v == vs[0] for v in vs): r = vs[0]
    elif ex and h5scoped(db, f.cls) and f.decl.get('rt') == 'void' and all(kk == 'throw' or env.get('this.m_id') == C(-1) or e.get('this.m_id') == C(-1) for kk, v, l, e in ex): r = 'open'
    c[(k, facts)] = r
    return r

def cascade(ip, i, n, env):
    """A handle that is known to be invalid makes every operation on it fail."""
    if n['o'] not in ('call', 'ctor'): return None
    q = n.get('q') or ''
    if q in CASCADE:
        return C(EXT_FAIL.get(q, -1)) if any(isneg(ip.val(a, env)) for a in n.get('a', ())) else None
    if n.get('f') in ip.db.raw and not n.get('virt'):
        fs = bad_facts(ip, n, env)
        if fs:
            r = summary(ip.db, n['f'], fs)
            if r is not None and r != 'open': return r
    return None

def cascade_decl(ip, e, env):
    n = ip.f.nodes[e['n']]
    if n['o'] == 'ctor' and n.get('f') in ip.db.raw and h5scoped(ip.db, ip.f.vars[e['d']]['t'].replace('const ', '')):
        fs = bad_facts(ip, n, env)
        if fs and summary(ip.db, n['f'], fs) == 'open': env['v%d.m_id' % e['d']] = C(-1)

def exits_ok(f, ip, isfail=None):
    isfail = isfail or failing_value(f)
    return [(k, v, l) for k, v, l, env in ip.exits if not isfail(k, v)]

# ---------------------------------------------------------------- call graph
def reach(db, roots, stop=lambda k: False):
    """Function keys with bodies reachable from roots (virtual targets included,
    constructors, destructors run implicitly and thread functors too)."""
    c = db.__dict__.setdefault('_succ', {})
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k in seen or k not in db.raw or stop(k): continue
        seen.add(k)
        if k not in c:
            f = db.fn(k); s = set()
            for n in f.nodes:
                if n.get('f') and n['o'] in ('call', 'ctor', 'fn', 'mfn'): s.update(db.targets(n))
                if n['o'] == 'call' and (n.get('q') or '').endswith('create_thread'):
                    s.update(thread_bodies(db, f, n))
            for b in f.blocks.values():
                for e in b['el']:
                    if isinstance(e, dict) and e.get('f'): s.add(e['f'])
            c[k] = s
        todo += c[k]
    return seen

def thread_bodies(db, f, n):
    """operator() of functor classes whose objects are built inside the call."""
    out = set(); todo = list(kids(n)); 
    while todo:
        j = todo.pop(); m = f.nodes[j]; todo += kids(m)
        if m['o'] in ('ctor', 'var', 'cast', 'load'):
            t = m['t'].replace('const ', '').rstrip(' &')
            for k in db.byq.get((db.recs.get(t) or {'q': '?'})['q'] + '::operator()', ()):
                if db.decl[k].get('cls') == t: out.add(k)
    return out

# ---------------------------------------------------------------- fallible functions
def h5scoped(db, cls):
    return derives(db, cls, 'Field3D::Hdf5Util::H5Base')

def ogobj(db, cls):
    return derives(db, cls, 'Field3D::OgIBase')

def fail_sources(db, f, fall):
    """(bid, i, e, value, post, callee) of every point in f where an operation that
    can fail is carried out, with the state that stands for its failure."""
    for bid, i, e in f.elems():
        if isinstance(e, dict):
            if e['e'] == 'decl' and e['n'] >= 0:
                n = f.nodes[e['n']]
                vt = f.vars[e['d']]['t'].replace('const ', '').rstrip(' &')
                if ogobj(db, vt):
                    m = n
                    while m['o'] in ('ctor', 'cast', 'load') and len(m['a']) == 1: m = f.nodes[m['a'][0]]
                    if m['o'] == 'call' and m.get('f') in db.raw:
                        def post(env, p='v%d' % e['d']): env[p + '.m_group'] = C(0)
                        yield bid, i, e, None, post, m['q'], f.loc(m)
                        continue
                if n['o'] == 'ctor' and n.get('f') and h5scoped(db, f.vars[e['d']]['t'].replace('const ', '')):
                    if n['f'] in fall.get('open', ()):
                        def post(env, p='v%d' % e['d']): env[p + '.m_id'] = C(-1)
                        yield bid, i, e, None, post, n['q'], f.loc(n)
            continue
        n = f.nodes[e]
        if n['o'] != 'call': continue
        q = n.get('q') or ''
        if q in EXT_FAIL:
            yield bid, i, e, C(EXT_FAIL[q]), None, q, f.loc(n)
            continue
        if not n.get('f'): continue
        ts = db.targets(n)
        fk = [t for t in ts if t in fall['fn']]
        if fk:
            v = {'bool': C(0), 'ptr': C(0), 'neg': C(-1)}[rkind(db.decl[n['f']])]
            def post(env, e=e, v=v):
                env['n%d' % e] = v
            yield bid, i, e, v, None, q, f.loc(n)
        elif any(t in fall.get('open', ()) for t in ts) and 'obj' in n:
            p = path(f, n['obj'])
            if p is not None:
                def post(env, p=p): env[p + '.m_id'] = C(-1)
                yield bid, i, e, None, post, q, f.loc(n)

BASE_IO = set(EXT_FAIL) | {'std::basic_ostream::write', 'std::basic_istream::read', 'std::basic_istream::seekg', 'std::basic_ostream::seekp'}

def io_reaching(db):
    """Bodies from which a storage operation can be reached."""
    c = db.__dict__.get('_ioreach')
    if c is not None: return c
    pred = {}
    base = set()
    for k in db.raw:
        f = db.fn(k)
        for n in f.nodes:
            if n['o'] in ('call', 'ctor') and n.get('f'):
                if (n.get('q') or '') in BASE_IO: base.add(k)
                for t in db.targets(n): pred.setdefault(t, set()).add(k)
    seen = set(); todo = list(base)
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k); todo += pred.get(k, ())
    db._ioreach = seen
    return seen

def fallible(db):
    """Least fixpoint: functions whose result reports a failure inside them."""
    c = db.__dict__.get('_fallible')
    if c is not None: return c
    fall = {'fn': set(), 'open': set()}
    # scoped handle classes: members/ctors that leave m_id negative without throwing
    for f in db.fns(lambda d: h5scoped(db, d.get('cls'))):
        for bid, i, e in f.elems():
            if isinstance(e, int) and f.nodes[e]['o'] == 'call' and f.nodes[e].get('q') in EXT_FAIL:
                ip = propagate(f, bid, i, e, C(-1))
                if ip and any(k != 'throw' for k, v, l, env in ip.exits): fall['open'].add(f.k)
    ch = True
    while ch:
        ch = False
        for f in db.fns(lambda d: h5scoped(db, d.get('cls'))):
            if f.k in fall['open']: continue
            if any(n['o'] == 'call' and n.get('f') in fall['open'] and path(f, n.get('obj', -1)) == 'this' for n in f.nodes):
                fall['open'].add(f.k); ch = True
    io = io_reaching(db)
    todo = []
    for k in sorted(io):
        d = db.decl[k]
        if not rkind(d) or h5scoped(db, d.get('cls')) or '::<lambda' in d['q']: continue
        f = db.fn(k)
        isf = failing_value(f)
        if any(kk == 'ret' and isf(kk, v) for kk, v, l, env in plain(f).exits): fall['fn'].add(k)
        else: todo.append(k)
    ch = True
    while ch:
        ch = False
        for k in list(todo):
            f = db.fn(k); isf = failing_value(f)
            for bid, i, e, v, post, q, loc in fail_sources(db, f, fall):
                ip_ = propagate(f, bid, i, e, v, post)
                if ip_ and any(kk == 'ret' and isf(kk, vv) for kk, vv, l, env in ip_.exits):
                    fall['fn'].add(k); todo.remove(k); ch = True
                    break
    db._fallible = fall
    return fall

def fkey(f):
    """Stable name of a function: qualified name plus overload index among the
    distinct source bodies of that name."""
    db = f.db
    c = db.__dict__.setdefault('_fkey', {})
    if f.q not in c:
        locs = sorted({(db.fn(k).file, db.fn(k).line) for k in db.byq[f.q]})
        c[f.q] = {l: i for i, l in enumerate(locs)}
    m = c[f.q]
    return f.q + ('#%d' % m[(f.file, f.line)] if len(m) > 1 else '')
