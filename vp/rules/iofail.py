"""Shared by C08 (writing) and C09 (reading): failures are propagated."""
from ..fail import *

# Items a valid file may lack: their absence is not a failure.
OPTIONAL = {'metadata', 'field3d_global_metadata', 'mip_levels', 'levels', 'version_number',
            'num_time_samples', 'z_distribution', 'class_type', 'field3d_group_membership', 'MatrixFieldMapping data'}
# Results that are null/false only when the group was already written out (frozen); the
# write itself reports through the stream's exceptions (rule 'stream').
FROZEN_ONLY = {'Alembic::Ogawa::v6::OGroup::addData', 'OGroup::addData', 'OGroup::createData', 'writeString', 'writeData', 'writeDataType'}

def cq(db, k):
    c = db.decl[k].get('cls') or ''
    return (db.recs.get(c) or {'q': c})['q']

def roots(db, write):
    out = []
    for k, d in db.decl.items():
        if k not in db.raw: continue
        c = d.get('cls') or ''; m = d['q'].split('::')[-1]; q = cq(db, k)
        if write:
            if q.startswith('Field3D::Field3DOutputFile'): out.append(k)
            elif m == 'write' and (derives(db, c, 'Field3D::FieldIO') or derives(db, c, 'Field3D::FieldMappingIO')): out.append(k)
            elif q.startswith('Field3D::OgO'): out.append(k)
        else:
            if q.startswith('Field3D::Field3DInputFile'): out.append(k)
            elif m == 'read' and (derives(db, c, 'Field3D::FieldIO') or derives(db, c, 'Field3D::FieldMappingIO')): out.append(k)
            elif q.startswith('Field3D::OgI'): out.append(k)
            elif m == 'load' and derives(db, c, 'Field3D::LazyLoadAction'): out.append(k)
    return out

def scope(db, write):
    w = reach(db, roots(db, True)); r = reach(db, roots(db, False))
    io = io_reaching(db)
    if write: return w
    return r | (io - w)

def ordinals(f, srcs):
    """callee#n, n counted in source order among the sources of f with that callee."""
    seen = {}; out = {}
    for s in sorted(srcs, key=lambda s: (int(s[6].rsplit(':', 1)[1]), s[0] * -1, s[1])):
        b = seen.get(s[5], 0); seen[s[5]] = b + 1
        out[(s[0], s[1])] = '%s#%d' % (s[5].split('::')[-1], b)
    return out

def lookup_layer(db, f):
    """Functions whose result *represents* an absent or invalid item (an Og object,
    a type code, a size, a name list): judged where the result is used."""
    d = f.decl
    if h5scoped(db, f.cls): return True
    if ogobj(db, f.cls) and (d.get('ctor') or f.q.split('::')[-1] == f.cls.split('::')[-1].split('<')[0]): return True
    rt = (d.get('rt') or '').replace('const ', '').rstrip(' &')
    if ogobj(db, rt): return True
    r = db.recs.get(f.cls or '', {}).get('q', '')
    if r == 'Field3D::OgIGroup': return True
    if r.startswith('Field3D::OgI') and (rt.endswith(('OgDataType', 'OgGroupType')) or rt in ('unsigned long', 'size_t') or 'vector<' in rt): return True
    if rt.endswith(('OgDataType', 'OgGroupType')): return True
    return False

# ---------------------------------------------------------------- names of items
def item_name(f, e):
    """Last component of the constant item name passed at a source."""
    n = f.nodes[e['n'] if isinstance(e, dict) else e]
    while n['o'] in ('ctor', 'cast', 'load') and len(n['a']) == 1 and not n.get('q', '').startswith('Field3D'): n = f.nodes[n['a'][0]]
    if n['o'] == 'ctor' and len(n['a']) == 1: n = f.nodes[n['a'][0]]
    for a in n.get('a', ()):
        s = strconst(f, a) or last_const(f, a)
        if s: return s.split('/')[-1]
    return None

def last_const(f, i, depth=0):
    """x + "...const": the constant tail of a concatenation."""
    if i is None or i < 0 or depth > 8: return None
    n = f.nodes[i]
    if n['o'] == 'call' and n.get('op') == '+':
        parts = ([n['obj']] if 'obj' in n else []) + list(n['a'])
        return strconst(f, parts[-1]) or last_const(f, parts[-1], depth + 1)
    if n['o'] in ('load', 'cast') or (n['o'] == 'ctor' and n['a'] and 'basic_string' in n['t']): return last_const(f, n['a'][0], depth + 1)
    if n['o'] == 'call' and n.get('q', '').split('::')[-1] in ('c_str', 'data', 'str'): return last_const(f, n.get('obj'), depth + 1)
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        return last_const(f, li, depth + 1) if li is not None and li >= 0 else None
    return None

def is_lookup(f, e, q):
    """Does the source give an Og object (found or not found)?"""
    return isinstance(e, dict) and e['e'] == 'decl' and ogobj(f.db, f.vars[e['d']]['t'].replace('const ', '').rstrip(' &'))

def constant_lookup(f, e):
    n = f.nodes[e['n']]
    while n['o'] in ('ctor', 'cast', 'load') and len(n['a']) == 1: n = f.nodes[n['a'][0]]
    return any(s and '*' not in s for s in (strconst(f, a) for a in n.get('a', ())))

# ---------------------------------------------------------------- thread functors
def flag_setter(db, k, depth=0):
    """Members set to true on every normal exit of function k."""
    c = db.__dict__.setdefault('_flagset', {})
    if k in c: return c[k]
    c[k] = set()
    f = db.fn(k)
    if f is None: return c[k]
    ip = Const(f); ip.on_elem = flag_hook(f)
    ip.run()
    res = None
    for kk, v, l, env in ip.exits:
        if kk == 'throw': continue
        s = {x[5:] for x in env if x.startswith('$flag') and env[x] == C(1)}
        res = s if res is None else res & s
    c[k] = res or set()
    return c[k]

def flag_hook(f):
    db = f.db
    def on(bid, i, e, env):
        if not isinstance(e, int): return
        n = f.nodes[e]
        if n['o'] == 'asn' and n.get('op') == '=':
            t = f.nodes[n['a'][0]]
            if t['o'] == 'mem' and 'bool' in t['t']:
                v = f.nodes[n['a'][1]]
                while v['o'] in ('cast', 'load'): v = f.nodes[v['a'][0]]
                if v['o'] == 'lit' and v.get('v'): env['$flag' + t['m']] = C(1)
        elif n['o'] == 'call' and n.get('f') in db.raw and not n.get('virt') and db.decl[n['f']].get('cls'):
            for m in flag_setter(db, n['f']): env['$flag' + m] = C(1)
    return on

def functors(db):
    """operator() bodies run by threads, with the functions that start them."""
    c = db.__dict__.get('_functors')
    if c is None:
        c = {}
        for k in db.raw:
            f = db.fn(k)
            for n in f.nodes:
                if n['o'] == 'call' and (n.get('q') or '').endswith('create_thread'):
                    for b in thread_bodies(db, f, n): c.setdefault(b, set()).add(k)
        db._functors = c
    return c

# ---------------------------------------------------------------- rules
def null_pushes(f, ip):
    return [l for l in ip.pushed if l]

def check_source(f, src):
    """Description of a bad outcome when this source fails, '' if none, None if unreachable."""
    bid, i, e, v, post, q, loc = src
    db = f.db
    thr = f.k in functors(db)
    rt = f.decl.get('rt') or ''
    container = rkind(f.decl) is None and 'vector<' in rt
    pushed = []
    stop = None
    if thr: stop = flag_hook(f)
    elif container:
        box = {}
        def stop(b, j, x, env):
            if not isinstance(x, int): return
            n = f.nodes[x]
            if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('push_back', 'emplace_back', 'insert') and n['a']:
                if box['ip'].val(n['a'][-1], env) == C(0): pushed.append(n.get('l'))
    st = entry_states(f).get((bid, i))
    if st is None: return None
    ip = Const(f, cascade); ip.single_fault = True; ip.after_decl = cascade_decl; ip.on_elem = stop
    if container: box['ip'] = ip
    env = dict(st)
    if post is None: ip.run((bid, i), env, {e: v})
    else:
        if isinstance(e, int):
            env.pop('n%d' % e, None); ip.effects(e, env)
            if v is not None: env['n%d' % e] = v
        post(env); ip.run((bid, i + 1), env, None)
    if thr:
        x = [(k, v, l) for k, v, l, env in ip.exits if k != 'throw' and not any(y.startswith('$flag') for y in env)]
        return 'the thread ends at line %s without recording the failure' % x[0][2] if x else ''
    if container:
        return 'a null entry is added to the result at line %s' % pushed[0] if pushed else ''
    x = exits_ok(f, ip)
    return ('%s still ends normally at line %s%s' % (f.q, x[0][2], ' returning %s' % x[0][1][1] if x[0][1] and len(x[0][1]) > 1 else '')) if x else ''

def run(ctx, write):
    db = ctx.db
    fall = fallible(db)
    for k in sorted(scope(db, write)):
        f = db.fn(k)
        if f is None or f.file.startswith('/') or lookup_layer(db, f): continue
        if f.decl.get('dtor'): continue     # has nobody to report to; the stream keeps its error for close() ('stream')
        srcs = list(fail_sources(db, f, fall))
        if not srcs: continue
        o = ordinals(f, srcs); fk = fkey(f)
        for s in srcs:
            bid, i, e, v, post, q, loc = s
            if any(q == x or q.endswith('::' + x) for x in FROZEN_ONLY): continue
            # giving up the file used before is not part of opening or creating the next one
            if q.endswith('::closeInternal') and f.q.split('::')[-1] in ('create', 'open', 'clear'): continue
            if is_lookup(f, e, q):
                # an item looked up under a computed name is allowed to be missing as
                # long as it is not used (C10); under a fixed name only if optional
                if not constant_lookup(f, e) or item_name(f, e) in OPTIONAL | {'mapping'}: continue
            elif item_name(f, e) in OPTIONAL and (isinstance(e, dict) or rkind(db.decl.get(f.nodes[e].get('f'), {})) is None): continue
            if q.endswith('::readFieldMapping') and not write and rkind(f.decl) == 'bool': continue   # the partition is kept without mapping
            bad = check_source(f, s)
            if bad is None: continue
            ctx.ob('propagate', '%s: %s' % (fk, o[(bid, i)]), not bad, loc, bad and 'when %s fails here, %s' % (q, bad), f)
    # the flag a thread leaves behind is looked at by the function that started it
    scp = scope(db, write)
    for b, spawners in sorted(functors(db).items()):
        if b not in scp: continue
        flags = set()
        fb = db.fn(b)
        ip = Const(fb); on = flag_hook(fb)
        def on2(bid, i, e, env):
            on(bid, i, e, env); flags.update(x[5:] for x in env if x.startswith('$flag'))
        ip.on_elem = on2; ip.run()
        for (t, h), hb in fb.catch_blocks.items():
            ip = Const(fb); ip.single_fault = True; ip.on_elem = on2; ip.run((hb, 0), {}, None)
        for s in fail_sources(db, fb, fall):
            if check_source(fb, s) == '':
                pass
        for k in sorted(spawners):
            f = db.fn(k); hit = False
            for bid, i, e in f.elems():
                if isinstance(e, int) and f.nodes[e]['o'] == 'load':
                    t = f.nodes[f.nodes[e]['a'][0]]
                    if t['o'] == 'mem' and t['m'] in flags:
                        ip = propagate(f, bid, i, e, C(1))
                        if ip is None: continue
                        if not exits_ok(f, ip): hit = True
            ctx.ob('thread-flag', '%s: result of %s' % (fkey(f), fkey(fb).split('::')[-2]), hit, f.loc(f.nodes[0]) if f.nodes else f.file,
                   'no failure flag set by the thread makes this function fail', f)

# ---------------------------------------------------------------- handlers
def in_try(f, y, t):
    while y is not None and y >= 0:
        if y == t: return True
        y = f.tries[y]['parent']
    return False

def retry_hook(db, fall):
    """Every repository call that can fail does fail (a handler that tries again
    must report that failure too)."""
    def hook(ip, i, n, env):
        if n['o'] == 'call' and n.get('f') and any(t in fall['fn'] for t in db.targets(n)):
            return {'bool': C(0), 'ptr': C(0), 'neg': C(-1)}[rkind(db.decl[n['f']])]
        return cascade(ip, i, n, env)
    return hook

def handlers(ctx, write):
    """Every catch block ends in failing exits, unless all its try block can fail on
    is the absence of optional items."""
    db = ctx.db
    io = io_reaching(db); fall = fallible(db)
    hook = retry_hook(db, fall)
    for k in sorted(scope(db, write)):
        f = db.fn(k)
        if f is None or k not in io or lookup_layer(db, f) or f.decl.get('dtor'): continue
        st = None
        thr = k in functors(db)
        for (t, h), b in sorted(f.catch_blocks.items()):
            ty = f.tries[t]['h'][h]
            key = '%s: catch %d.%d %s' % (fkey(f), t, h, ty)
            calls = []
            for j, n in enumerate(f.nodes):
                if n['o'] in ('call', 'ctor') and in_try(f, n.get('y', -1), t) and any(x in io for x in (db.targets(n) if n.get('f') else ())):
                    calls.append((j, n))
            if not calls and not any(n['o'] == 'call' and n.get('q') in BASE_IO and in_try(f, n.get('y', -1), t) for n in f.nodes): 
                continue
            if all(optional_call(f, j, n) for j, n in calls) and calls: 
                ctx.ob('handler', key, True, '%s:%s' % (f.file, f.tries[t]['l']), '', f); continue
            if f.decl.get('rs') == 'herr_t' and ty.replace('const ', '').rstrip(' &').endswith('MissingAttributeException'):
                continue        # listing callback: a group without the attributes of a layer is not a layer
            # state common to the places that can raise
            es = entry_states(f); env = None
            for (bid, i), s in es.items():
                e = f.blocks[bid]['el'][i]
                j = e if isinstance(e, int) else e.get('n', -1)
                if j >= 0 and in_try(f, f.nodes[j].get('y', -1), t) and f.nodes[j]['o'] in ('call', 'ctor', 'throw'):
                    env = dict(s) if env is None else {x: v for x, v in env.items() if s.get(x) == v}
            ip = Const(f, hook); ip.single_fault = True
            if thr: ip.on_elem = flag_hook(f)
            ip.run((b, 0), {x: v for x, v in (env or {}).items() if not x.startswith('n')}, None)
            if thr: x = [(kk, v, l) for kk, v, l, en in ip.exits if kk != 'throw' and not any(y.startswith('$flag') for y in en)]
            else: x = exits_ok(f, ip)
            ctx.ob('handler', key, not x, '%s:%s' % (f.file, x[0][2] if x else f.line),
                   '' if not x else 'the handler for %s can end with a normal return at line %s' % (ty, x[0][2]), f)

def optional_call(f, j, n):
    """A call in a try block that reads nothing but optional items."""
    db = f.db
    q = (n.get('q') or '').split('::')[-1]
    nm = None
    for a in n.get('a', ()):
        s = strconst(f, a)
        if s: nm = s; break
    if nm in OPTIONAL: return True
    if q in ('readMetadata', 'readMeta'): return True     # items of an optional group
    if n.get('cls') and False: pass
    # members of a local Og object that was looked up under an optional name
    if 'obj' in n:
        o = f.nodes[n['obj']]
        while o['o'] in ('load', 'cast'): o = f.nodes[o['a'][0]]
        if o['o'] == 'var':
            li = local_init(f).get(o['d'])
            if li is not None and li >= 0 and item_name(f, {'n': li}) in OPTIONAL: return True
    # constructors of scoped handles / copies of found objects
    if n['o'] == 'ctor':
        t = n['t'].replace('const ', '').rstrip(' &')
        if (ogobj(db, t) or h5scoped(db, t)) and len(n['a']) >= 1:
            m = f.nodes[n['a'][0]]
            while m['o'] in ('load', 'cast'): m = f.nodes[m['a'][0]]
            if m['o'] == 'call': return optional_call(f, n['a'][0], m)
            if m['o'] == 'var' : return True
    return False

# ---------------------------------------------------------------- success means stored
def stores(ctx):
    """A write that reports success has passed a storage operation."""
    db = ctx.db; io = io_reaching(db)
    def stop_for(f, seen):
        def on(bid, i, e, env):
            if not isinstance(e, int):
                if e['e'] == 'decl' and e['n'] >= 0:
                    n = f.nodes[e['n']]
                    if n['o'] == 'ctor' and n.get('f') in io: env['$st'] = C(1); seen.append(1)
                return
            n = f.nodes[e]
            if n['o'] in ('call', 'ctor') and n.get('f'):
                if (n.get('q') or '') in BASE_IO or any(t in io for t in db.targets(n)): env['$st'] = C(1); seen.append(1)
        return on
    for k in sorted(roots(db, True)):
        f = db.fn(k); m = f.q.split('::')[-1]
        if f.file.startswith('/'): continue
        d = f.decl
        api = cq(db, k).startswith('Field3D::Field3DOutputFile')
        iow = m == 'write' and (derives(db, d.get('cls'), 'Field3D::FieldIO') or derives(db, d.get('cls'), 'Field3D::FieldMappingIO'))
        if rkind(d) != 'bool' or not (iow or (api and m.startswith('write'))): continue
        seen = []
        ip = Const(f, lambda ip, i, n, env: None); ip.on_elem = stop_for(f, seen)
        env0 = {'this.m_hdf5': C(0)} if api else {}
        ip.run(None, env0)
        isf = failing_value(f)
        if iow:
            bad = [l for kk, v, l, env in ip.exits if not isf(kk, v) and env.get('$st') != C(1)]
        else:
            bad = [] if seen else [l for kk, v, l, env in ip.exits if not isf(kk, v)]
        ctx.ob('store', fkey(f), not bad, '%s:%s' % (f.file, bad[0] if bad else f.line),
               'reports success at line %s without having stored anything' % (bad[0] if bad else ''), f)

def stream_errors(ctx):
    """The Ogawa output stream raises on every failed operation: whoever opens or
    takes a stream sets both error bits before it is kept."""
    db = ctx.db
    n = 0
    for k in sorted(db.raw):
        f = db.fn(k)
        if not f.decl.get('ctor') or 'OStream' not in f.q: continue
        streams = [x for x in f.nodes if x['o'] in ('mem',) and 'basic_ostream' in x['t'] and '*' in x['t']]
        opens = [x for x in f.nodes if x['o'] == 'ctor' and 'basic_ofstream' in x['t']] or streams or \
            [1 for b, i, e in f.elems() if isinstance(e, dict) and e['e'] == 'init' and 'stream' in (e.get('m') or '').lower()]
        if not opens or not f.q.split('::')[-1] == 'PrivateData': continue
        n += 1
        # on every normal exit either the stream is null or exceptions() was called with both bits
        ip = Const(f)
        def on(bid, i, e, env):
            if isinstance(e, int):
                x = f.nodes[e]
                if x['o'] == 'call' and (x.get('q') or '').endswith('basic_ios::exceptions') and x['a']:
                    bits = set()
                    todo = [x['a'][0]]
                    while todo:
                        y = f.nodes[todo.pop()]; todo += kids(y)
                        for b in ('failbit', 'badbit'):
                            if (y.get('q') or '').endswith(b): bits.add(b)
                    if len(bits) == 2: env['$exc'] = C(1)
        ip.on_elem = on; ip.run()
        bad = [l for kk, v, l, env in ip.exits if kk != 'throw' and env.get('$exc') != C(1) and env.get('this.stream') != C(0)]
        ctx.ob('stream', fkey(f), not bad, '%s:%s' % (f.file, f.line), 'a stream is kept for writing without raising on failures', f)
